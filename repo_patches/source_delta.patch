From 58e464c0978bbb445cb393c1e9ddd8c0b89d6ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:34 +0000
Subject: [PATCH 01/63] fix: reciprocal of a floating-point ball containing
 zero is unbounded
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

rec(Ball) returned a finite ball not containing the reciprocals of the
members of the other sign, e.g. rec(0.5±1)=2±1.33.
---
 source/numeric/float_ball.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/numeric/float_ball.hpp b/source/numeric/float_ball.hpp
index d965eb6..5fce3b7 100644
--- a/source/numeric/float_ball.hpp
+++ b/source/numeric/float_ball.hpp
@@ -482,6 +482,8 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
     }
 
     static Ball<F,FE> _rec(Ball<F,FE> const& x) {
+        // The reciprocal is unbounded if the ball contains zero
+        if(not (x._e<abs(x._v))) { return Ball<F,FE>(F(0,x.precision()),FE::inf(x.error_precision())); }
         // Use this code to find value same as reciprocal value
         auto rv=rec(approx,x._v);
         auto ru=rec(up,sub(down,x._v,x._e));
-- 
2.43.0


From a2ffbf1dd0e8581720f8b53a4740d9adb5e2de20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:34 +0000
Subject: [PATCH 02/63] fix: absolute value of a ball of negative numbers

abs(Ball) returned its argument when it did not contain zero, even if it
was negative; max and min of balls inherited the wrong result.
---
 source/numeric/float_ball.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_ball.hpp b/source/numeric/float_ball.hpp
index 5fce3b7..cf8bd61 100644
--- a/source/numeric/float_ball.hpp
+++ b/source/numeric/float_ball.hpp
@@ -612,7 +612,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
 
 
     static Ball<F,FE> _abs(Ball<F,FE> const& x) {
-        if(x._e<abs(x._v)) { return x; }
+        if(x._e<abs(x._v)) { return Ball<F,FE>(abs(x._v),x._e); }
         else { auto rv=hlf(add(up,abs(x._v),x._e)); return Ball<F,FE>(rv,_make_error(rv)); }
     }
 
-- 
2.43.0


From c812c7f9c71d991ef6ef0f4d36893f00f412de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:01 +0000
Subject: [PATCH 03/63] fix: round upper bounds upward when reducing precision
 of a value or bounds

---
 source/numeric/float_upper_bound.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/float_upper_bound.tpl.hpp b/source/numeric/float_upper_bound.tpl.hpp
index ed53c24..e71f7ec 100644
--- a/source/numeric/float_upper_bound.tpl.hpp
+++ b/source/numeric/float_upper_bound.tpl.hpp
@@ -37,8 +37,8 @@
 
 namespace Ariadne {
 
-template<class F> UpperBound<F>::UpperBound(F const& x, PR pr) : _u(x,downward,pr) {}
-template<class F> UpperBound<F>::UpperBound(Bounds<F> const& x, PR pr) : _u(x._u,downward,pr) {}
+template<class F> UpperBound<F>::UpperBound(F const& x, PR pr) : _u(x,upward,pr) {}
+template<class F> UpperBound<F>::UpperBound(Bounds<F> const& x, PR pr) : _u(x._u,upward,pr) {}
 template<class F> UpperBound<F>::UpperBound(UpperBound<F> const& x, PR pr) : _u(x._u,upward,pr) {}
 
 template<class F> UpperBound<F>::UpperBound(Bounds<F> const& x) : UpperBound<F>(x.upper_raw()) { }
-- 
2.43.0


From 20e9903abe4d62818e1bad3f0d388128761a9cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:01 +0000
Subject: [PATCH 04/63] fix: quotient of positive lower and upper bounds
 divides

---
 source/numeric/float_lower_bound.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_lower_bound.hpp b/source/numeric/float_lower_bound.hpp
index 0249204..8954883 100644
--- a/source/numeric/float_lower_bound.hpp
+++ b/source/numeric/float_lower_bound.hpp
@@ -311,7 +311,7 @@ template<class F> class Positive<LowerBound<F>> : public LowerBound<F>
     friend PositiveLowerBound<F> operator*(PositiveLowerBound<F> const& x1, PositiveLowerBound<F> const& x2) {
         return PositiveLowerBound<F>(mul(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F> operator/(PositiveLowerBound<F> const& x1, PositiveUpperBound<F> const& x2) {
-        return PositiveLowerBound<F>(mul(down,x1.raw(),x2.raw())); }
+        return PositiveLowerBound<F>(div(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F>& operator+=(PositiveLowerBound<F>& x1, PositiveLowerBound<F> const& x2) {
         return x1=x1+x2; }
     friend PositiveLowerBound<F>& operator*=(PositiveLowerBound<F>& x1, PositiveLowerBound<F> const& x2) {
-- 
2.43.0


From 52a7116c8700f768ac96755c06e3405a7ffe586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:01 +0000
Subject: [PATCH 05/63] fix: round quotient of positive value by lower bound
 upward

---
 source/numeric/float_upper_bound.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_upper_bound.hpp b/source/numeric/float_upper_bound.hpp
index 1180d6f..b7d0cd4 100644
--- a/source/numeric/float_upper_bound.hpp
+++ b/source/numeric/float_upper_bound.hpp
@@ -342,7 +342,7 @@ template<class F> class Positive<UpperBound<F>> : public UpperBound<F>
     friend PositiveUpperBound<F> operator/(PositiveUpperBound<F> const& x1, Positive<F> const& x2) {
         return PositiveUpperBound<F>(div(up,x1.raw(),x2)); }
     friend PositiveUpperBound<F> operator/(Positive<F> const& x1, PositiveLowerBound<F> const& x2) {
-        return PositiveUpperBound<F>(div(down,x1,x2.raw())); }
+        return PositiveUpperBound<F>(div(up,x1,x2.raw())); }
     friend PositiveUpperBound<F> operator/(PositiveUpperBound<F> const& x1, Nat m2) {
         return PositiveUpperBound<F>(div(up,x1.raw(),F(m2,x1.precision()))); }
     friend PositiveLowerBound<F> operator/(Positive<F> const& x1, PositiveUpperBound<F> const& x2);
-- 
2.43.0


From f994189c53f0b67384f612618dd4b6de744378e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 06/63] fix: correct reversed <= and > comparisons of Decimal

---
 source/numeric/decimal.hpp | 334 ++++++++++++++++++-------------------
 1 file changed, 167 insertions(+), 167 deletions(-)

diff --git a/source/numeric/decimal.hpp b/source/numeric/decimal.hpp
index 73de284..5ade4a1 100644
--- a/source/numeric/decimal.hpp
+++ b/source/numeric/decimal.hpp
@@ -1,167 +1,167 @@
-/***************************************************************************
- *            numeric/decimal.hpp
- *
- *  Copyright  2014-20  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-/*! \file numeric/decimal.hpp
- *  \brief ExactTag decimal numbers, useful for user input.
- */
-
-#ifndef ARIADNE_DECIMAL_HPP
-#define ARIADNE_DECIMAL_HPP
-
-#include <string>
-#include <iostream>
-#include "utility/typedefs.hpp"
-#include "numeric/number.decl.hpp"
-#include "numeric/integer.hpp"
-
-namespace Ariadne {
-
-//! \ingroup NumericModule
-//! \brief A decimal number.
-//! \sa Integer, Dyadic, Rational, Real
-class Decimal
-{
-  public:
-    static const Integer _ten;
-    Integer _p; Nat _q;
-  public:
-    typedef ExactTag Paradigm;
-    //! \brief Default constructor creates the number 0 (zero).
-    Decimal();
-    //! \brief Construct the number p/10^q.
-    explicit Decimal(Integer p, Nat q);
-    explicit Decimal(Integer p, Int q) = delete;
-    //! \brief Construct from a builtin integral type.
-    template<BuiltinIntegral N> Decimal(N n);
-    //! \brief Construct from a double-precision floating-point number representation.
-    explicit Decimal(double d);
-    //! \brief Construct from a string representation.
-    explicit Decimal(String const&);
-    //! \brief Convert from a dyadic.
-    Decimal(Dyadic const&);
-    //! \brief Convert to a rational number.
-    operator Rational () const;
-    //! \brief Convert to an generic number.
-    operator ExactNumber () const;
-    //! \brief A string literal
-    String literal() const;
-
-    //! \name Arithmetic operators
-    //!@{
-    friend Decimal operator+(Decimal const& d); //!< Unary plus \a +d.
-    friend Decimal operator-(Decimal const& d); //!< Unary minus \a -d.
-    friend Decimal operator+(Decimal const& d1, Decimal const& d2); //!< Plus \a d1+d2.
-    friend Decimal operator-(Decimal const& d1, Decimal const& d2); //!< Minus \a d1-d2.
-    friend Decimal operator*(Decimal const& d1, Decimal const& d2); //!< Times \a d1*d2.
-    friend Rational operator/(Decimal const& d1, Decimal const& d2); //!< Divides \a d1/d2, yielding a rational.
-    friend Decimal& operator+=(Decimal& d1, Decimal const& d2); //!< Inplace plus \a d1:=d1+d2.
-    //!@}
-
-    //!@{
-    //! \name Comparison operators
-    friend Boolean operator==(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::EQUAL; } //!< <p/>
-    friend Boolean operator!=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::EQUAL; } //!< <p/>
-    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d2,d1)!=Comparison::GREATER; } //!< <p/>
-    friend Boolean operator>=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::LESS; } //!< <p/>
-    friend Boolean operator< (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::LESS; } //!< <p/>
-    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d2,d1)==Comparison::GREATER; } //!< <p/>
-    //!@}
-
-    //!@{
-    //! \name Arithmetic operations
-    friend Decimal nul(Decimal const& d); //!< Zero \a 0.
-    friend Decimal sqr(Decimal const& d); //!< Square \a d<sup>2</sup>.
-    friend Decimal hlf(Decimal const& d); //!< Half \a d/2.
-    //!@}
-
-    //!@{
-    //! \name Lattice operations
-    friend Decimal abs(Decimal const& d); //!< Absolute value \a |d|.
-    friend Decimal min(Decimal const& d1, Decimal const& d2); //!< Minimum \a d1∧d2.
-    friend Decimal max(Decimal const& d1, Decimal const& d2); //!< Maximum \a d1∨d2.
-    //!@}
-
-    //!@{
-    //! \name Comparison operations
-    friend Comparison cmp(Decimal const& d1, Decimal const& d2); //!< Comparison of two decimal values.
-    //!@}
-
-    //! \brief Write to an output stream.
-    friend OutputStream& operator<<(OutputStream& os, Decimal const& d);
-    //! \brief Construct from an integer literal.
-    friend Decimal operator"" _decimal (unsigned long long int n);
-    //! \brief Construct from a floating-point literal.
-    friend Decimal operator"" _decimal (long double dbl);
-    //! \brief Construct from a string literal.
-    friend Decimal operator"" _decimal (const char* str, std::size_t);
-
-    //! \brief Shorthand for operator""_decimal.
-    friend Decimal operator"" _dec (long double dbl);
-
-    //! \brief Alternative for operator""_decimal for use in Python interface.
-    friend Decimal dec_(long double dbl);
-
-    void canonicalize();
-};
-Decimal operator"" _dec (unsigned long long int n);
-Decimal operator"" _dec (long double dbl);
-Decimal operator"" _dec (const char* str, std::size_t);
-Decimal operator"" _decimal (unsigned long long int n);
-Decimal operator"" _decimal (long double dbl);
-Decimal operator"" _decimal (const char* str, std::size_t);
-
-template<BuiltinIntegral N> inline Decimal::Decimal(N n) : Decimal(n,0u) { }
-
-
-template<> class Positive<Decimal> : public Decimal {
-  public:
-    Positive() : Decimal() { }
-    template<BuiltinUnsignedIntegral M> Positive(M m) : Decimal(m) { }
-    Positive(int n) = delete;
-    explicit Positive(Decimal const& w) : Decimal(w) { ARIADNE_ASSERT(w>=0); }
-};
-inline Positive<Decimal> cast_positive(Decimal const& w) { return Positive<Decimal>(w); }
-using PositiveDecimal = Positive<Decimal>;
-
-template<> class Bounds<Decimal> {
-    Decimal _l, _u;
-  public:
-    Bounds(Decimal w) : _l(w), _u(w) { }
-    template<ConvertibleTo<Decimal> X> Bounds(X const& x)
-        : Bounds(Decimal(x)) { }
-    Bounds(Decimal l, Decimal u) : _l(l), _u(u) { }
-    template<class X> requires Constructible<Decimal,X> Bounds(Bounds<X> const& x)
-        : Bounds(Decimal(x.lower_raw()),Decimal(x.upper_raw())) { }
-    operator ValidatedNumber() const;
-    Decimal lower() const { return _l; }
-    Decimal upper() const { return _u; }
-    Decimal lower_raw() const { return _l; }
-    Decimal upper_raw() const { return _u; }
-    friend OutputStream& operator<<(OutputStream& os, Bounds<Decimal> y) { return os << "[" << y._l << ":" << y._u << "]"; }
-};
-
-
-} // namespace Ariadne
-
-#endif
+/***************************************************************************
+ *            numeric/decimal.hpp
+ *
+ *  Copyright  2014-20  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+/*! \file numeric/decimal.hpp
+ *  \brief ExactTag decimal numbers, useful for user input.
+ */
+
+#ifndef ARIADNE_DECIMAL_HPP
+#define ARIADNE_DECIMAL_HPP
+
+#include <string>
+#include <iostream>
+#include "utility/typedefs.hpp"
+#include "numeric/number.decl.hpp"
+#include "numeric/integer.hpp"
+
+namespace Ariadne {
+
+//! \ingroup NumericModule
+//! \brief A decimal number.
+//! \sa Integer, Dyadic, Rational, Real
+class Decimal
+{
+  public:
+    static const Integer _ten;
+    Integer _p; Nat _q;
+  public:
+    typedef ExactTag Paradigm;
+    //! \brief Default constructor creates the number 0 (zero).
+    Decimal();
+    //! \brief Construct the number p/10^q.
+    explicit Decimal(Integer p, Nat q);
+    explicit Decimal(Integer p, Int q) = delete;
+    //! \brief Construct from a builtin integral type.
+    template<BuiltinIntegral N> Decimal(N n);
+    //! \brief Construct from a double-precision floating-point number representation.
+    explicit Decimal(double d);
+    //! \brief Construct from a string representation.
+    explicit Decimal(String const&);
+    //! \brief Convert from a dyadic.
+    Decimal(Dyadic const&);
+    //! \brief Convert to a rational number.
+    operator Rational () const;
+    //! \brief Convert to an generic number.
+    operator ExactNumber () const;
+    //! \brief A string literal
+    String literal() const;
+
+    //! \name Arithmetic operators
+    //!@{
+    friend Decimal operator+(Decimal const& d); //!< Unary plus \a +d.
+    friend Decimal operator-(Decimal const& d); //!< Unary minus \a -d.
+    friend Decimal operator+(Decimal const& d1, Decimal const& d2); //!< Plus \a d1+d2.
+    friend Decimal operator-(Decimal const& d1, Decimal const& d2); //!< Minus \a d1-d2.
+    friend Decimal operator*(Decimal const& d1, Decimal const& d2); //!< Times \a d1*d2.
+    friend Rational operator/(Decimal const& d1, Decimal const& d2); //!< Divides \a d1/d2, yielding a rational.
+    friend Decimal& operator+=(Decimal& d1, Decimal const& d2); //!< Inplace plus \a d1:=d1+d2.
+    //!@}
+
+    //!@{
+    //! \name Comparison operators
+    friend Boolean operator==(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::EQUAL; } //!< <p/>
+    friend Boolean operator!=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::EQUAL; } //!< <p/>
+    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::GREATER; } //!< <p/>
+    friend Boolean operator>=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::LESS; } //!< <p/>
+    friend Boolean operator< (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::LESS; } //!< <p/>
+    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::GREATER; } //!< <p/>
+    //!@}
+
+    //!@{
+    //! \name Arithmetic operations
+    friend Decimal nul(Decimal const& d); //!< Zero \a 0.
+    friend Decimal sqr(Decimal const& d); //!< Square \a d<sup>2</sup>.
+    friend Decimal hlf(Decimal const& d); //!< Half \a d/2.
+    //!@}
+
+    //!@{
+    //! \name Lattice operations
+    friend Decimal abs(Decimal const& d); //!< Absolute value \a |d|.
+    friend Decimal min(Decimal const& d1, Decimal const& d2); //!< Minimum \a d1∧d2.
+    friend Decimal max(Decimal const& d1, Decimal const& d2); //!< Maximum \a d1∨d2.
+    //!@}
+
+    //!@{
+    //! \name Comparison operations
+    friend Comparison cmp(Decimal const& d1, Decimal const& d2); //!< Comparison of two decimal values.
+    //!@}
+
+    //! \brief Write to an output stream.
+    friend OutputStream& operator<<(OutputStream& os, Decimal const& d);
+    //! \brief Construct from an integer literal.
+    friend Decimal operator"" _decimal (unsigned long long int n);
+    //! \brief Construct from a floating-point literal.
+    friend Decimal operator"" _decimal (long double dbl);
+    //! \brief Construct from a string literal.
+    friend Decimal operator"" _decimal (const char* str, std::size_t);
+
+    //! \brief Shorthand for operator""_decimal.
+    friend Decimal operator"" _dec (long double dbl);
+
+    //! \brief Alternative for operator""_decimal for use in Python interface.
+    friend Decimal dec_(long double dbl);
+
+    void canonicalize();
+};
+Decimal operator"" _dec (unsigned long long int n);
+Decimal operator"" _dec (long double dbl);
+Decimal operator"" _dec (const char* str, std::size_t);
+Decimal operator"" _decimal (unsigned long long int n);
+Decimal operator"" _decimal (long double dbl);
+Decimal operator"" _decimal (const char* str, std::size_t);
+
+template<BuiltinIntegral N> inline Decimal::Decimal(N n) : Decimal(n,0u) { }
+
+
+template<> class Positive<Decimal> : public Decimal {
+  public:
+    Positive() : Decimal() { }
+    template<BuiltinUnsignedIntegral M> Positive(M m) : Decimal(m) { }
+    Positive(int n) = delete;
+    explicit Positive(Decimal const& w) : Decimal(w) { ARIADNE_ASSERT(w>=0); }
+};
+inline Positive<Decimal> cast_positive(Decimal const& w) { return Positive<Decimal>(w); }
+using PositiveDecimal = Positive<Decimal>;
+
+template<> class Bounds<Decimal> {
+    Decimal _l, _u;
+  public:
+    Bounds(Decimal w) : _l(w), _u(w) { }
+    template<ConvertibleTo<Decimal> X> Bounds(X const& x)
+        : Bounds(Decimal(x)) { }
+    Bounds(Decimal l, Decimal u) : _l(l), _u(u) { }
+    template<class X> requires Constructible<Decimal,X> Bounds(Bounds<X> const& x)
+        : Bounds(Decimal(x.lower_raw()),Decimal(x.upper_raw())) { }
+    operator ValidatedNumber() const;
+    Decimal lower() const { return _l; }
+    Decimal upper() const { return _u; }
+    Decimal lower_raw() const { return _l; }
+    Decimal upper_raw() const { return _u; }
+    friend OutputStream& operator<<(OutputStream& os, Bounds<Decimal> y) { return os << "[" << y._l << ":" << y._u << "]"; }
+};
+
+
+} // namespace Ariadne
+
+#endif
-- 
2.43.0


From 0687418ee778ea8e3ec87b222704742e37862d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 07/63] fix: swap bounds in neg of Bounds<Dyadic>

---
 source/numeric/dyadic.hpp | 858 +++++++++++++++++++-------------------
 1 file changed, 429 insertions(+), 429 deletions(-)

diff --git a/source/numeric/dyadic.hpp b/source/numeric/dyadic.hpp
index 5c73f2a..da71220 100644
--- a/source/numeric/dyadic.hpp
+++ b/source/numeric/dyadic.hpp
@@ -1,429 +1,429 @@
-/***************************************************************************
- *            numeric/dyadic.hpp
- *
- *  Copyright  2008-20  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-/*! \file numeric/dyadic.hpp
- *  \brief Dyadic numbers.
- */
-
-#ifndef ARIADNE_DYADIC_HPP
-#define ARIADNE_DYADIC_HPP
-
-#include "numeric/gmp.hpp"
-
-#include <iostream> // For std::floor std::ceil etc
-#include <iomanip> // For std::setprecision
-#include <cmath> // For std::floor std::ceil etc
-#include <algorithm> // For std::max, std::min
-#include <limits> // For std::numeric_limits<double>
-
-#include "utility/handle.hpp"
-#include "utility/writable.hpp"
-
-#include "numeric/logical.hpp"
-#include "numeric/integer.hpp"
-#include "numeric/twoexp.hpp"
-#include "numeric/arithmetic.hpp"
-
-namespace Ariadne {
-
-class ExactDouble;
-class Dyadic;
-extern const Dyadic infty;
-
-class InfinityException : public std::runtime_error {
-    using std::runtime_error::runtime_error;
-};
-
-//! \ingroup NumericModule
-//! \brief A dyadic number of the form \f$p/2^q\f$ for integers \f$p\f$, \f$q\f$; equivalently, a number with a finite binary expansion.
-//! \sa Integer, Decimal, Rational, Float<DP>, Float<MP>
-//! \details The number \f$1.375\f$ is an example of a dyadic number, since it is equal to \f$1.375=11/8=11/2^3=1.101_2\f$. The number \f$0.1375\f$ is not a dyadic number, since \f$0.1375=11/80=11/(2^4\times 5)=0.0010\overline{0011}_2\f$, so the denominator is not a power of \f$2\f$, and its binary expansion is recurring.
-class Dyadic
-{
-    static Writer<Dyadic> _default_writer;
-  public:
-//    template<class W> requires BaseOf<WriterInterface<Dyadic>,W> static Void set_default_writer(W w) {
-//        _default_writer=std::make_shared<W>(std::move(w)); }
-//    static Void set_default_writer(Writer<Dyadic> w) { _default_writer=w.managed_pointer(); }
-    static Void set_default_writer(Writer<Dyadic> w) { _default_writer=w; }
-    static Writer<Dyadic> default_writer() { return _default_writer; }
-  public:
-    mpf_t _mpf;
-  public:
-    typedef ExactTag Paradigm;
-
-    //! \brief Construct a Dyadic number from a GNU mpf object.
-    explicit Dyadic (mpf_t mpf);
-    //! \brief Construct the Dyadic number \a p/2<sup>q</sup>.
-    Dyadic (Integer const& p, Nat q);
-    Dyadic (Integer const& p, Int q) = delete; // Can only construct a dyadic p/2^q for a positive (unsigned) value q, such at uint or Nat.
-    Dyadic (Integer const& p, Natural q);
-    //! \brief Destructor.
-    ~Dyadic();
-    //! \brief Default constructor creates the number 0 (zero).
-    Dyadic();
-    //! \brief Copy constructor.
-    Dyadic(Dyadic const& n);
-    Dyadic(Dyadic&& n);
-    //! \brief Assignment constructor.
-    Dyadic& operator=(Dyadic const& n);
-    Dyadic& operator=(Dyadic&& n);
-    //! \brief Convert from a built-in integer.
-    template<BuiltinIntegral N> Dyadic(N n);
-    //! \brief Convert from an exact double-precision number.
-    Dyadic(const ExactDouble& d);
-    //! \brief Convert from an integer.
-    Dyadic(const Integer& z);
-    //! \brief Convert from a power of two.
-    Dyadic(const TwoExp& t);
-    //! \brief Explicit construction from a built-in double-precision value.
-    //! \details Tests to ensure that the number is not 'accidentally' created from a rounded version of a string literal,
-    //! by comparing the input with it's single-precision approximation.
-    explicit Dyadic(double x);
-    //! \brief Construct from a string representation.
-    explicit Dyadic(String const&);
-    //! \brief Convert to a generic number.
-    operator ExactNumber () const;
-    //! \brief A representation of ±∞ or NaN.
-    static Dyadic inf(Sign sgn);
-    //! \brief A representation of +∞.
-    static Dyadic inf();
-    //! \brief A representation of NaN (not-a-number).
-    static Dyadic nan();
-
-    //! \brief The smallest integer \a p such that \a x=p/2<sup>q</sup>
-    Integer mantissa() const;
-    //! \brief The (negative) integer \a -q such that \a x=p/2<sup>q</sup>
-    Int exponent() const;
-    //! \brief A double-precision approximation.
-    double get_d() const;
-    mpf_t const& get_mpf() const;
-    //! \brief A string literal, comprising the exact value in decimal format.
-    String literal() const;
-    //! \brief Convert a floating-point literal to Dyadic i.e. long binary format.
-    friend Dyadic operator"" _bin(long double x);
-    //! \brief Convert a floating-point literal to Dyadic.
-    friend Dyadic operator"" _dyadic(long double x);
-    //! \brief Shorthand for operator""_dyadic.
-    friend Dyadic operator"" _dy(long double x);
-    //! \brief Alternative for operator""_dyadic for use in Python interface.
-    friend Dyadic dy_(long double x);
-
-    //!@{
-    //! \name Arithmetic operators
-    friend Dyadic operator+(Dyadic const& w) { return pos(w); } //!< <p/>
-    friend Dyadic operator-(Dyadic const& w) { return neg(w); } //!< <p/>
-    friend Dyadic operator+(Dyadic const& w1, Dyadic const& w2) { return add(w1,w2); } //!< <p/>
-    friend Dyadic operator-(Dyadic const& w1, Dyadic const& w2) { return sub(w1,w2); } //!< <p/>
-    friend Dyadic operator*(Dyadic const& w1, Dyadic const& w2) { return mul(w1,w2); } //!< <p/>
-    friend Dyadic& operator+=(Dyadic& w1, Dyadic const& w2) { return w1=add(w1,w2); } //!< <p/>
-    friend Dyadic& operator-=(Dyadic& w1, Dyadic const& w2) { return w1=sub(w1,w2); } //!< <p/>
-    friend Dyadic& operator*=(Dyadic& w1, Dyadic const& w2) { return w1=mul(w1,w2); } //!< <p/>
-    friend Rational operator/(Rational const&, Rational const&);
-    //!@}
-
-    //!@{
-    //! \name Comparison operators
-    friend Boolean operator==(Dyadic const& w1, Dyadic const& w2) { return eq(w1,w2); } //!< <p/>
-    friend Boolean operator!=(Dyadic const& w1, Dyadic const& w2) { return !eq(w1,w2); } //!< <p/>
-    friend Boolean operator<=(Dyadic const& w1, Dyadic const& w2) { return !lt(w2,w1); } //!< <p/>
-    friend Boolean operator>=(Dyadic const& w1, Dyadic const& w2) { return !lt(w1,w2); } //!< <p/>
-    friend Boolean operator< (Dyadic const& w1, Dyadic const& w2) { return lt(w1,w2); } //!< <p/>
-    friend Boolean operator> (Dyadic const& w1, Dyadic const& w2) { return lt(w2,w1); } //!< <p/>
-    //!@}
-
-    //!@{
-    //! \name Arithmetic operations
-    friend Dyadic nul(Dyadic const& w); //!< Zero \a 0.
-    friend Dyadic pos(Dyadic const& w); //!< %Positive \a +w.
-    friend Dyadic neg(Dyadic const& w); //!< Negative \a -w.
-    friend Positive<Dyadic> sqr(Dyadic const& w); //!< Square \a w<sup>2</sup>.
-    friend Dyadic hlf(Dyadic const& w); //!< Half \a w/2.
-
-    friend Dyadic add(Dyadic const& w1, Dyadic const& w2); //!< Add \a w1+w2.
-    friend Dyadic sub(Dyadic const& w1, Dyadic const& w2); //!< Subtract \a w1-w2.
-    friend Dyadic mul(Dyadic const& w1, Dyadic const& w2); //!< Multiply \a w1×w2.
-    friend Dyadic pow(Dyadic const& w, Nat m); //!< Power \a w<sup>m</sup> where \a  m is positive.
-    friend Rational pow(Dyadic const& w, Int n); //!< Power \a w<sup>n</sup>.
-    friend Dyadic fma(Dyadic const& w1, Dyadic const& w2, Dyadic const& w3); //!< Fused multiply-and-add \a w1×w2+w3.
-
-    friend Rational rec(Rational const&);
-    friend Rational div(Rational const&, Rational const&);
-    //!@}
-
-    friend Real sqrt(Real const&);
-    friend Real exp(Real const&);
-    friend Real log(Real const&);
-    friend Real sin(Real const&);
-    friend Real cos(Real const&);
-    friend Real tan(Real const&);
-    friend Real asin(Real const&);
-    friend Real acos(Real const&);
-    friend Real atan(Real const&);
-
-    //!@{
-    //! \name Lattice operations
-    friend Positive<Dyadic> abs(Dyadic const& w); //!< Absolute value \a |w|.
-    friend Dyadic min(Dyadic const& w1, Dyadic const& w2); //!< Minimum \a w1∧w2.
-//    friend Positive<Dyadic> min(Positive<Dyadic> const& w1, Positive<Dyadic> const& w2);
-    friend Dyadic max(Dyadic const& w1, Dyadic const& w2); //!< Maximum \a w1∨w2.
-//    friend Positive<Dyadic> max(Dyadic const& w1, Positive<Dyadic> const& w2);
-//    friend Positive<Dyadic> max(Positive<Dyadic> const& w1, Dyadic const& w2);
-//    friend Positive<Dyadic> max(Positive<Dyadic> const& w1, Positive<Dyadic> const& w2);
-    //!@}
-
-    //!@{
-    //! \name Rounding operations
-    friend Integer floor(Dyadic const& w); //!< Round down to the nearest lower integer.
-    friend Integer round(Dyadic const& w); //!< Round to the nearest integer. %Rounding of halves is implementation-dependent.
-    friend Integer ceil(Dyadic const& w); //!< Round up to the nearest higher integer.
-    //!@}
-
-    //!@{
-    //! \name Comparison operations
-    friend Sign sgn(Dyadic const& w); //!< The sign of \a w.
-    friend Comparison cmp(Dyadic const& w1, Dyadic const& w2); //!< Compares which of \a w1 and \a w2 is larger.
-    friend Boolean eq(Dyadic const& w1, Dyadic const& w2); //!< Tests if \a w1 is equal to \a w2.
-    friend Boolean lt(Dyadic const& w1, Dyadic const& w2); //!< Tests if \a w1 is less than \a w2.
-    //!@}
-
-    //!@{
-    //! \name Special value tests
-    friend Bool is_nan(Dyadic const& w); //!< Tests whether \a w is NaN (not-a-number).
-    friend Bool is_inf(Dyadic const& w); //!< Tests whether \a w is ±∞.
-    friend Bool is_finite(Dyadic const& w); //!< Tests whether \a w is finite.
-    friend Bool is_zero(Dyadic const& w); //!< Tests whether \a w is zero.
-    //!@}
-
-    //!@{
-    //! \name Input/output operations
-    friend OutputStream& operator<<(OutputStream& os, Dyadic const& w); //!< Write to an output stream.
-    //!@}
-};
-
-class DecimalWriter : public WriterInterface<Dyadic> {
-    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
-};
-class ScientificWriter : public WriterInterface<Dyadic> {
-    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
-};
-class FractionWriter : public WriterInterface<Dyadic> {
-    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
-};
-template<> class RepresentationWriter<Dyadic> : public WriterInterface<Dyadic> {
-    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
-};
-
-
-template<BuiltinIntegral N> inline Dyadic::Dyadic(N n) : Dyadic(Integer(n)) { }
-
-
-template<> class Positive<Dyadic> : public Dyadic {
-  public:
-    Positive() : Dyadic() { }
-    template<BuiltinUnsignedIntegral M> Positive(M m) : Dyadic(m) { }
-    Positive(int n) = delete;
-    explicit Positive(Dyadic const& w) : Dyadic(w) { ARIADNE_ASSERT(w>=0); }
-};
-inline Positive<Dyadic> cast_positive(Dyadic const& w) { return Positive<Dyadic>(w); }
-
-using PositiveDyadic = Positive<Dyadic>;
-
-//! \relates Dyadic
-//! \name Type synonyms
-//!@{
-//! \ingroup NumericModule
-using DyadicBounds = Bounds<Dyadic>; //!< Alias for dyadic bounds on a number.
-using DyadicBall = Ball<Dyadic,Dyadic>; //!< Alias for ball about a number with dyadic value and error.
-using DyadicUpperBound = UpperBound<Dyadic>; //!< Alias for dyadic upper bound for a number.
-using DyadicLowerBound = LowerBound<Dyadic>; //!< Alias for dyadic lower bound for a number.
-using DyadicApproximation = Approximation<Dyadic>; //!< Alias for dyadic approximateion to a number.
-
-using PositiveDyadicApproximation = Positive<Approximation<Dyadic>>; //!< <p/>
-using PositiveDyadicLowerBound = Positive<LowerBound<Dyadic>>; //!< <p/>
-using PositiveDyadicUpperBound = Positive<UpperBound<Dyadic>>; //!< <p/>
-using PositiveDyadicBounds = Positive<Bounds<Dyadic>>; //!< <p/>
-//!@}
-
-template<> class Bounds<Dyadic> {
-    Dyadic _l, _u;
-  public:
-    typedef ValidatedTag Paradigm;
-    Bounds(Dyadic w) : _l(w), _u(w) { }
-    template<ConvertibleTo<Dyadic> X> Bounds(X const& x)
-        : Bounds(Dyadic(x)) { }
-    Bounds(Dyadic l, Dyadic u) : _l(l), _u(u) { }
-    template<class X> requires Constructible<Dyadic,X> Bounds(Bounds<X> const& x)
-        : Bounds(Dyadic(x.lower_raw()),Dyadic(x.upper_raw())) { }
-    operator ValidatedNumber() const;
-    Bounds<Dyadic> pm(Dyadic e) { return Bounds<Dyadic>(_l-e,_u+e); }
-    Dyadic lower() const { return _l; }
-    Dyadic upper() const { return _u; }
-    Dyadic lower_raw() const { return _l; }
-    Dyadic upper_raw() const { return _u; }
-    Bounds<FloatDP> get(DoublePrecision pr) const;
-    Bounds<FloatMP> get(MultiplePrecision pr) const;
-    friend Bounds<Dyadic> operator+(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(+w._l,w._u); }
-    friend Bounds<Dyadic> operator-(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(-w._u,-w._l); }
-    friend Bounds<Dyadic> operator+(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return Bounds<Dyadic>(w1._l+w2._l,w1._u+w2._u); }
-    friend Bounds<Dyadic> operator-(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return Bounds<Dyadic>(w1._l-w2._u,w1._u-w2._l); }
-    friend Bounds<Dyadic> operator*(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2);
-    friend Bounds<Rational> operator/(Bounds<Rational> const& w1, Bounds<Rational> const& w2);
-    friend Bounds<Dyadic> add(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return Bounds<Dyadic>(w1._l+w2._l,w1._u+w2._u); }
-    friend Bounds<Dyadic> sub(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return Bounds<Dyadic>(w1._l-w2._u,w1._u-w2._l); }
-    friend Bounds<Dyadic> mul(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2);
-    friend Bounds<Rational> div(Bounds<Rational> const& w1, Bounds<Rational> const& w2);
-    friend Bounds<Dyadic> pow(Bounds<Dyadic> const& w, Nat m);
-    friend Bounds<Dyadic> pow(Bounds<Dyadic> const& w, Int m); // DEPRECATED m always positive
-    friend Bounds<Dyadic> nul(Bounds<Dyadic> const& w) {
-        return Bounds<Dyadic>(nul(w._l),nul(w._u)); }
-    friend Bounds<Dyadic> pos(Bounds<Dyadic> const& w) {
-        return Bounds<Dyadic>(pos(w._l),pos(w._u)); }
-    friend Bounds<Dyadic> neg(Bounds<Dyadic> const& w) {
-        return Bounds<Dyadic>(neg(w._l),neg(w._u)); }
-    friend Bounds<Dyadic> sqr(Bounds<Dyadic> const& w) {
-        if(w._l>0) { return Bounds<Dyadic>(sqr(w._l),sqr(w._u)); }
-        else if(w._u<0) { return Bounds<Dyadic>(sqr(w._u),sqr(w._l)); }
-        else { return Bounds<Dyadic>(nul(w._l),max(sqr(w._l),sqr(w._u))); } }
-    friend Bounds<Dyadic> hlf(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(hlf(w._l),hlf(w._u)); }
-    friend Bounds<Rational> rec(Bounds<Rational> const& w);
-    friend Bounds<Dyadic> abs(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(max(min(w._l,-w._u),0),max(-w._l,w._u)); }
-    friend Bounds<Dyadic> max(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) { return Bounds<Dyadic>(max(w1._l,w2._l),max(w1._u,w2._u)); }
-    friend Bounds<Dyadic> min(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) { return Bounds<Dyadic>(min(w1._l,w2._l),min(w1._u,w2._u)); }
-
-    friend ValidatedKleenean sgn(Bounds<Dyadic> const& w) {
-        if (w._l>0) { return true; } else if (w._u<0) { return false; } else { return indeterminate; } }
-    friend ValidatedKleenean operator==(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        if (w1._l>=w2._u && w1._u<=w2._l) { return true; } else if (w1._u< w2._l || w1._l> w2._u) { return false; } else { return indeterminate; } }
-    friend ValidatedKleenean operator!=(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        if (w1._u< w2._l || w1._l> w2._u) { return true; } else if (w1._l>=w2._u && w1._u<=w2._l) { return false; } else { return indeterminate; } }
-    friend ValidatedKleenean operator<=(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        if (w1._u<=w2._l) { return true; } else if (w1._l> w2._u) { return false; } else { return indeterminate; } }
-    friend ValidatedKleenean operator>=(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        if (w1._l>=w2._u) { return true; } else if (w1._u< w2._l) { return false; } else { return indeterminate; } }
-    friend ValidatedKleenean operator< (Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        if (w1._u< w2._l) { return true; } else if (w1._l>=w2._u) { return false; } else { return indeterminate; } }
-    friend ValidatedKleenean operator> (Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        if (w1._l> w2._u) { return true; } else if (w1._u<=w2._l) { return false; } else { return indeterminate; } }
-    friend Bool consistent(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return w1._l<=w2._u && w1._u >= w2._l; }
-    friend Boolean inconsistent(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return w1._l>w2._u || w1._u < w2._l; }
-    friend Boolean refines(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return w1._l>=w2._l and w1._u<=w2._u; }
-    friend Bounds<Dyadic> refinement(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return Bounds<Dyadic>(max(w1._l,w2._l),min(w1._u,w2._u)); }
-    friend Bounds<Dyadic> coarsening(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return Bounds<Dyadic>(min(w1._l,w2._l),max(w1._u,w2._u)); }
-    friend OutputStream& operator<<(OutputStream& os, Bounds<Dyadic> y) { return os << "[" << y._l << ":" << y._u << "]"; }
-};
-
-
-template<> class Ball<Dyadic,Dyadic> {
-    Dyadic _v, _e;
-  public:
-    Ball(Dyadic w) : _v(w), _e(0) { }
-    Ball(Dyadic v, Dyadic e) : _v(v), _e(e) { }
-    template<class X, class XE> requires Constructible<Dyadic,X> and Constructible<Dyadic,XE>
-    Ball(Ball<X,XE> const& x)
-        : Ball(Dyadic(x.value_raw()),Dyadic(x.error_raw())) { }
-    explicit Ball(Bounds<Dyadic> const& w) : _v(hlf(w.lower()+w.upper())), _e(hlf(w.upper()-w.lower())) { }
-    explicit operator Bounds<Dyadic>() const { return Bounds<Dyadic>(_v-_e,_v+_e); }
-    operator ValidatedNumber() const;
-    Dyadic value() const { return _v; }
-    Dyadic error() const { return _e; }
-    Dyadic value_raw() const { return _v; }
-    Dyadic error_raw() const { return _e; }
-    friend DyadicBall operator+(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(w1._v+w2._v,w1._e+w2._e); }
-    friend DyadicBall operator-(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(w1._v-w2._v,w1._e+w2._e); }
-    friend DyadicBall operator*(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(w1._v*w2._v,abs(w1._v)*w2._e+w1._e*abs(w2._v)+w1._e*w2._e); }
-    friend DyadicBall abs(DyadicBall const& w) {
-        if (abs(w._v)>=w._e) { return DyadicBall(abs(w._v),w._e); } else { Dyadic av=hlf(max(w._e-w._v,w._v+w._e)); return DyadicBall(av,av); } }
-    friend ValidatedKleenean operator<(DyadicBall const& w1, DyadicBall const& w2) {
-        if (w1._v+w1._e<w2._v-w2._e) { return true; } else if (w1._v-w1._e >= w2._v+w2._e) { return false; } else { return indeterminate; } }
-    friend Boolean inconsistent(DyadicBall const& w1, DyadicBall const& w2) { return abs(w1._v-w2._v) > w1._e+w2._e; }
-    friend Boolean refines(DyadicBall const& w1, DyadicBall const& w2) { return abs(w1._v-w2._v)+w1._e <= w2._e; }
-    friend DyadicBall refinement(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(refinement(DyadicBounds(w1),DyadicBounds(w2))); }
-    friend DyadicBall coarsening(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(coarsening(DyadicBounds(w1),DyadicBounds(w2))); }
-    friend OutputStream& operator<<(OutputStream& os, DyadicBall y) { return os << "[" << y._v << ":" << y._e << "]"; }
-};
-
-template<> class LowerBound<Dyadic> {
-    Dyadic _l;
-  public:
-    LowerBound(Dyadic l) : _l(l) { }
-    LowerBound(Bounds<Dyadic> lu) : _l(lu.lower_raw()) { }
-    LowerBound(LowerBound<FloatDP> const& x);
-    LowerBound(LowerBound<FloatMP> const& x);
-    Dyadic raw() const { return _l; }
-    LowerBound<FloatDP> get(DoublePrecision pr) const;
-    LowerBound<FloatMP> get(MultiplePrecision pr) const;
-    friend OutputStream& operator<<(OutputStream& os, LowerBound<Dyadic> const& y) { return os << y._l << ":"; }
-};
-
-template<> class UpperBound<Dyadic> {
-    Dyadic _u;
-  public:
-    explicit UpperBound(Dyadic u) : _u(u) { }
-    UpperBound(Bounds<Dyadic> lu) : _u(lu.upper_raw()) { }
-    UpperBound(UpperBound<FloatDP> const& x);
-    UpperBound(UpperBound<FloatMP> const& x);
-    Dyadic raw() const { return _u; }
-    UpperBound<FloatDP> get(DoublePrecision pr) const;
-    UpperBound<FloatMP> get(MultiplePrecision pr) const;
-    friend OutputStream& operator<<(OutputStream& os, UpperBound<Dyadic> const& y) { return os << ":" << y._u; }
-};
-
-template<> class Approximation<Dyadic> {
-    Dyadic _a;
-  public:
-    Approximation(Dyadic a) : _a(a) { }
-    Approximation(Approximation<FloatDP> const& x);
-    Approximation(Approximation<FloatMP> const& x);
-    Dyadic raw() const { return _a; }
-    Approximation<FloatDP> get(DoublePrecision pr) const;
-    Approximation<FloatMP> get(MultiplePrecision pr) const;
-    friend OutputStream& operator<<(OutputStream& os, Approximation<Dyadic> const& y);
-};
-
-template<> class Positive<Bounds<Dyadic>> : public Bounds<Dyadic> { public: Positive(Bounds<Dyadic> w) : Bounds<Dyadic>(w) { }; };
-template<> class Positive<LowerBound<Dyadic>> : public LowerBound<Dyadic> { public: Positive(LowerBound<Dyadic> w) : LowerBound<Dyadic>(w) { }; };
-template<> class Positive<UpperBound<Dyadic>> : public UpperBound<Dyadic> { public: Positive(UpperBound<Dyadic> w) : UpperBound<Dyadic>(w) { } ; };
-template<> class Positive<Approximation<Dyadic>> : public Approximation<Dyadic> { public: Positive(Approximation<Dyadic> w) : Approximation<Dyadic>(w) { } };
-
-inline Dyadic operator"" _dyadic(long double x) { return Dyadic(static_cast<double>(x)); }
-inline Dyadic operator"" _dy(long double x) { return operator"" _dyadic(x); }
-inline Dyadic operator"" _q2(long double x) { return operator"" _dyadic(x); }
-inline Dyadic operator"" _bin(long double x) { return operator"" _dyadic(x); }
-
-Comparison cmp(Dyadic const& x1, Dyadic const& x2);
-Dyadic make_dyadic(unsigned long long int n);
-
-} // namespace Ariadne
-
-#endif
+/***************************************************************************
+ *            numeric/dyadic.hpp
+ *
+ *  Copyright  2008-20  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+/*! \file numeric/dyadic.hpp
+ *  \brief Dyadic numbers.
+ */
+
+#ifndef ARIADNE_DYADIC_HPP
+#define ARIADNE_DYADIC_HPP
+
+#include "numeric/gmp.hpp"
+
+#include <iostream> // For std::floor std::ceil etc
+#include <iomanip> // For std::setprecision
+#include <cmath> // For std::floor std::ceil etc
+#include <algorithm> // For std::max, std::min
+#include <limits> // For std::numeric_limits<double>
+
+#include "utility/handle.hpp"
+#include "utility/writable.hpp"
+
+#include "numeric/logical.hpp"
+#include "numeric/integer.hpp"
+#include "numeric/twoexp.hpp"
+#include "numeric/arithmetic.hpp"
+
+namespace Ariadne {
+
+class ExactDouble;
+class Dyadic;
+extern const Dyadic infty;
+
+class InfinityException : public std::runtime_error {
+    using std::runtime_error::runtime_error;
+};
+
+//! \ingroup NumericModule
+//! \brief A dyadic number of the form \f$p/2^q\f$ for integers \f$p\f$, \f$q\f$; equivalently, a number with a finite binary expansion.
+//! \sa Integer, Decimal, Rational, Float<DP>, Float<MP>
+//! \details The number \f$1.375\f$ is an example of a dyadic number, since it is equal to \f$1.375=11/8=11/2^3=1.101_2\f$. The number \f$0.1375\f$ is not a dyadic number, since \f$0.1375=11/80=11/(2^4\times 5)=0.0010\overline{0011}_2\f$, so the denominator is not a power of \f$2\f$, and its binary expansion is recurring.
+class Dyadic
+{
+    static Writer<Dyadic> _default_writer;
+  public:
+//    template<class W> requires BaseOf<WriterInterface<Dyadic>,W> static Void set_default_writer(W w) {
+//        _default_writer=std::make_shared<W>(std::move(w)); }
+//    static Void set_default_writer(Writer<Dyadic> w) { _default_writer=w.managed_pointer(); }
+    static Void set_default_writer(Writer<Dyadic> w) { _default_writer=w; }
+    static Writer<Dyadic> default_writer() { return _default_writer; }
+  public:
+    mpf_t _mpf;
+  public:
+    typedef ExactTag Paradigm;
+
+    //! \brief Construct a Dyadic number from a GNU mpf object.
+    explicit Dyadic (mpf_t mpf);
+    //! \brief Construct the Dyadic number \a p/2<sup>q</sup>.
+    Dyadic (Integer const& p, Nat q);
+    Dyadic (Integer const& p, Int q) = delete; // Can only construct a dyadic p/2^q for a positive (unsigned) value q, such at uint or Nat.
+    Dyadic (Integer const& p, Natural q);
+    //! \brief Destructor.
+    ~Dyadic();
+    //! \brief Default constructor creates the number 0 (zero).
+    Dyadic();
+    //! \brief Copy constructor.
+    Dyadic(Dyadic const& n);
+    Dyadic(Dyadic&& n);
+    //! \brief Assignment constructor.
+    Dyadic& operator=(Dyadic const& n);
+    Dyadic& operator=(Dyadic&& n);
+    //! \brief Convert from a built-in integer.
+    template<BuiltinIntegral N> Dyadic(N n);
+    //! \brief Convert from an exact double-precision number.
+    Dyadic(const ExactDouble& d);
+    //! \brief Convert from an integer.
+    Dyadic(const Integer& z);
+    //! \brief Convert from a power of two.
+    Dyadic(const TwoExp& t);
+    //! \brief Explicit construction from a built-in double-precision value.
+    //! \details Tests to ensure that the number is not 'accidentally' created from a rounded version of a string literal,
+    //! by comparing the input with it's single-precision approximation.
+    explicit Dyadic(double x);
+    //! \brief Construct from a string representation.
+    explicit Dyadic(String const&);
+    //! \brief Convert to a generic number.
+    operator ExactNumber () const;
+    //! \brief A representation of ±∞ or NaN.
+    static Dyadic inf(Sign sgn);
+    //! \brief A representation of +∞.
+    static Dyadic inf();
+    //! \brief A representation of NaN (not-a-number).
+    static Dyadic nan();
+
+    //! \brief The smallest integer \a p such that \a x=p/2<sup>q</sup>
+    Integer mantissa() const;
+    //! \brief The (negative) integer \a -q such that \a x=p/2<sup>q</sup>
+    Int exponent() const;
+    //! \brief A double-precision approximation.
+    double get_d() const;
+    mpf_t const& get_mpf() const;
+    //! \brief A string literal, comprising the exact value in decimal format.
+    String literal() const;
+    //! \brief Convert a floating-point literal to Dyadic i.e. long binary format.
+    friend Dyadic operator"" _bin(long double x);
+    //! \brief Convert a floating-point literal to Dyadic.
+    friend Dyadic operator"" _dyadic(long double x);
+    //! \brief Shorthand for operator""_dyadic.
+    friend Dyadic operator"" _dy(long double x);
+    //! \brief Alternative for operator""_dyadic for use in Python interface.
+    friend Dyadic dy_(long double x);
+
+    //!@{
+    //! \name Arithmetic operators
+    friend Dyadic operator+(Dyadic const& w) { return pos(w); } //!< <p/>
+    friend Dyadic operator-(Dyadic const& w) { return neg(w); } //!< <p/>
+    friend Dyadic operator+(Dyadic const& w1, Dyadic const& w2) { return add(w1,w2); } //!< <p/>
+    friend Dyadic operator-(Dyadic const& w1, Dyadic const& w2) { return sub(w1,w2); } //!< <p/>
+    friend Dyadic operator*(Dyadic const& w1, Dyadic const& w2) { return mul(w1,w2); } //!< <p/>
+    friend Dyadic& operator+=(Dyadic& w1, Dyadic const& w2) { return w1=add(w1,w2); } //!< <p/>
+    friend Dyadic& operator-=(Dyadic& w1, Dyadic const& w2) { return w1=sub(w1,w2); } //!< <p/>
+    friend Dyadic& operator*=(Dyadic& w1, Dyadic const& w2) { return w1=mul(w1,w2); } //!< <p/>
+    friend Rational operator/(Rational const&, Rational const&);
+    //!@}
+
+    //!@{
+    //! \name Comparison operators
+    friend Boolean operator==(Dyadic const& w1, Dyadic const& w2) { return eq(w1,w2); } //!< <p/>
+    friend Boolean operator!=(Dyadic const& w1, Dyadic const& w2) { return !eq(w1,w2); } //!< <p/>
+    friend Boolean operator<=(Dyadic const& w1, Dyadic const& w2) { return !lt(w2,w1); } //!< <p/>
+    friend Boolean operator>=(Dyadic const& w1, Dyadic const& w2) { return !lt(w1,w2); } //!< <p/>
+    friend Boolean operator< (Dyadic const& w1, Dyadic const& w2) { return lt(w1,w2); } //!< <p/>
+    friend Boolean operator> (Dyadic const& w1, Dyadic const& w2) { return lt(w2,w1); } //!< <p/>
+    //!@}
+
+    //!@{
+    //! \name Arithmetic operations
+    friend Dyadic nul(Dyadic const& w); //!< Zero \a 0.
+    friend Dyadic pos(Dyadic const& w); //!< %Positive \a +w.
+    friend Dyadic neg(Dyadic const& w); //!< Negative \a -w.
+    friend Positive<Dyadic> sqr(Dyadic const& w); //!< Square \a w<sup>2</sup>.
+    friend Dyadic hlf(Dyadic const& w); //!< Half \a w/2.
+
+    friend Dyadic add(Dyadic const& w1, Dyadic const& w2); //!< Add \a w1+w2.
+    friend Dyadic sub(Dyadic const& w1, Dyadic const& w2); //!< Subtract \a w1-w2.
+    friend Dyadic mul(Dyadic const& w1, Dyadic const& w2); //!< Multiply \a w1×w2.
+    friend Dyadic pow(Dyadic const& w, Nat m); //!< Power \a w<sup>m</sup> where \a  m is positive.
+    friend Rational pow(Dyadic const& w, Int n); //!< Power \a w<sup>n</sup>.
+    friend Dyadic fma(Dyadic const& w1, Dyadic const& w2, Dyadic const& w3); //!< Fused multiply-and-add \a w1×w2+w3.
+
+    friend Rational rec(Rational const&);
+    friend Rational div(Rational const&, Rational const&);
+    //!@}
+
+    friend Real sqrt(Real const&);
+    friend Real exp(Real const&);
+    friend Real log(Real const&);
+    friend Real sin(Real const&);
+    friend Real cos(Real const&);
+    friend Real tan(Real const&);
+    friend Real asin(Real const&);
+    friend Real acos(Real const&);
+    friend Real atan(Real const&);
+
+    //!@{
+    //! \name Lattice operations
+    friend Positive<Dyadic> abs(Dyadic const& w); //!< Absolute value \a |w|.
+    friend Dyadic min(Dyadic const& w1, Dyadic const& w2); //!< Minimum \a w1∧w2.
+//    friend Positive<Dyadic> min(Positive<Dyadic> const& w1, Positive<Dyadic> const& w2);
+    friend Dyadic max(Dyadic const& w1, Dyadic const& w2); //!< Maximum \a w1∨w2.
+//    friend Positive<Dyadic> max(Dyadic const& w1, Positive<Dyadic> const& w2);
+//    friend Positive<Dyadic> max(Positive<Dyadic> const& w1, Dyadic const& w2);
+//    friend Positive<Dyadic> max(Positive<Dyadic> const& w1, Positive<Dyadic> const& w2);
+    //!@}
+
+    //!@{
+    //! \name Rounding operations
+    friend Integer floor(Dyadic const& w); //!< Round down to the nearest lower integer.
+    friend Integer round(Dyadic const& w); //!< Round to the nearest integer. %Rounding of halves is implementation-dependent.
+    friend Integer ceil(Dyadic const& w); //!< Round up to the nearest higher integer.
+    //!@}
+
+    //!@{
+    //! \name Comparison operations
+    friend Sign sgn(Dyadic const& w); //!< The sign of \a w.
+    friend Comparison cmp(Dyadic const& w1, Dyadic const& w2); //!< Compares which of \a w1 and \a w2 is larger.
+    friend Boolean eq(Dyadic const& w1, Dyadic const& w2); //!< Tests if \a w1 is equal to \a w2.
+    friend Boolean lt(Dyadic const& w1, Dyadic const& w2); //!< Tests if \a w1 is less than \a w2.
+    //!@}
+
+    //!@{
+    //! \name Special value tests
+    friend Bool is_nan(Dyadic const& w); //!< Tests whether \a w is NaN (not-a-number).
+    friend Bool is_inf(Dyadic const& w); //!< Tests whether \a w is ±∞.
+    friend Bool is_finite(Dyadic const& w); //!< Tests whether \a w is finite.
+    friend Bool is_zero(Dyadic const& w); //!< Tests whether \a w is zero.
+    //!@}
+
+    //!@{
+    //! \name Input/output operations
+    friend OutputStream& operator<<(OutputStream& os, Dyadic const& w); //!< Write to an output stream.
+    //!@}
+};
+
+class DecimalWriter : public WriterInterface<Dyadic> {
+    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
+};
+class ScientificWriter : public WriterInterface<Dyadic> {
+    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
+};
+class FractionWriter : public WriterInterface<Dyadic> {
+    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
+};
+template<> class RepresentationWriter<Dyadic> : public WriterInterface<Dyadic> {
+    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
+};
+
+
+template<BuiltinIntegral N> inline Dyadic::Dyadic(N n) : Dyadic(Integer(n)) { }
+
+
+template<> class Positive<Dyadic> : public Dyadic {
+  public:
+    Positive() : Dyadic() { }
+    template<BuiltinUnsignedIntegral M> Positive(M m) : Dyadic(m) { }
+    Positive(int n) = delete;
+    explicit Positive(Dyadic const& w) : Dyadic(w) { ARIADNE_ASSERT(w>=0); }
+};
+inline Positive<Dyadic> cast_positive(Dyadic const& w) { return Positive<Dyadic>(w); }
+
+using PositiveDyadic = Positive<Dyadic>;
+
+//! \relates Dyadic
+//! \name Type synonyms
+//!@{
+//! \ingroup NumericModule
+using DyadicBounds = Bounds<Dyadic>; //!< Alias for dyadic bounds on a number.
+using DyadicBall = Ball<Dyadic,Dyadic>; //!< Alias for ball about a number with dyadic value and error.
+using DyadicUpperBound = UpperBound<Dyadic>; //!< Alias for dyadic upper bound for a number.
+using DyadicLowerBound = LowerBound<Dyadic>; //!< Alias for dyadic lower bound for a number.
+using DyadicApproximation = Approximation<Dyadic>; //!< Alias for dyadic approximateion to a number.
+
+using PositiveDyadicApproximation = Positive<Approximation<Dyadic>>; //!< <p/>
+using PositiveDyadicLowerBound = Positive<LowerBound<Dyadic>>; //!< <p/>
+using PositiveDyadicUpperBound = Positive<UpperBound<Dyadic>>; //!< <p/>
+using PositiveDyadicBounds = Positive<Bounds<Dyadic>>; //!< <p/>
+//!@}
+
+template<> class Bounds<Dyadic> {
+    Dyadic _l, _u;
+  public:
+    typedef ValidatedTag Paradigm;
+    Bounds(Dyadic w) : _l(w), _u(w) { }
+    template<ConvertibleTo<Dyadic> X> Bounds(X const& x)
+        : Bounds(Dyadic(x)) { }
+    Bounds(Dyadic l, Dyadic u) : _l(l), _u(u) { }
+    template<class X> requires Constructible<Dyadic,X> Bounds(Bounds<X> const& x)
+        : Bounds(Dyadic(x.lower_raw()),Dyadic(x.upper_raw())) { }
+    operator ValidatedNumber() const;
+    Bounds<Dyadic> pm(Dyadic e) { return Bounds<Dyadic>(_l-e,_u+e); }
+    Dyadic lower() const { return _l; }
+    Dyadic upper() const { return _u; }
+    Dyadic lower_raw() const { return _l; }
+    Dyadic upper_raw() const { return _u; }
+    Bounds<FloatDP> get(DoublePrecision pr) const;
+    Bounds<FloatMP> get(MultiplePrecision pr) const;
+    friend Bounds<Dyadic> operator+(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(+w._l,w._u); }
+    friend Bounds<Dyadic> operator-(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(-w._u,-w._l); }
+    friend Bounds<Dyadic> operator+(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return Bounds<Dyadic>(w1._l+w2._l,w1._u+w2._u); }
+    friend Bounds<Dyadic> operator-(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return Bounds<Dyadic>(w1._l-w2._u,w1._u-w2._l); }
+    friend Bounds<Dyadic> operator*(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2);
+    friend Bounds<Rational> operator/(Bounds<Rational> const& w1, Bounds<Rational> const& w2);
+    friend Bounds<Dyadic> add(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return Bounds<Dyadic>(w1._l+w2._l,w1._u+w2._u); }
+    friend Bounds<Dyadic> sub(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return Bounds<Dyadic>(w1._l-w2._u,w1._u-w2._l); }
+    friend Bounds<Dyadic> mul(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2);
+    friend Bounds<Rational> div(Bounds<Rational> const& w1, Bounds<Rational> const& w2);
+    friend Bounds<Dyadic> pow(Bounds<Dyadic> const& w, Nat m);
+    friend Bounds<Dyadic> pow(Bounds<Dyadic> const& w, Int m); // DEPRECATED m always positive
+    friend Bounds<Dyadic> nul(Bounds<Dyadic> const& w) {
+        return Bounds<Dyadic>(nul(w._l),nul(w._u)); }
+    friend Bounds<Dyadic> pos(Bounds<Dyadic> const& w) {
+        return Bounds<Dyadic>(pos(w._l),pos(w._u)); }
+    friend Bounds<Dyadic> neg(Bounds<Dyadic> const& w) {
+        return Bounds<Dyadic>(neg(w._u),neg(w._l)); }
+    friend Bounds<Dyadic> sqr(Bounds<Dyadic> const& w) {
+        if(w._l>0) { return Bounds<Dyadic>(sqr(w._l),sqr(w._u)); }
+        else if(w._u<0) { return Bounds<Dyadic>(sqr(w._u),sqr(w._l)); }
+        else { return Bounds<Dyadic>(nul(w._l),max(sqr(w._l),sqr(w._u))); } }
+    friend Bounds<Dyadic> hlf(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(hlf(w._l),hlf(w._u)); }
+    friend Bounds<Rational> rec(Bounds<Rational> const& w);
+    friend Bounds<Dyadic> abs(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(max(min(w._l,-w._u),0),max(-w._l,w._u)); }
+    friend Bounds<Dyadic> max(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) { return Bounds<Dyadic>(max(w1._l,w2._l),max(w1._u,w2._u)); }
+    friend Bounds<Dyadic> min(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) { return Bounds<Dyadic>(min(w1._l,w2._l),min(w1._u,w2._u)); }
+
+    friend ValidatedKleenean sgn(Bounds<Dyadic> const& w) {
+        if (w._l>0) { return true; } else if (w._u<0) { return false; } else { return indeterminate; } }
+    friend ValidatedKleenean operator==(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        if (w1._l>=w2._u && w1._u<=w2._l) { return true; } else if (w1._u< w2._l || w1._l> w2._u) { return false; } else { return indeterminate; } }
+    friend ValidatedKleenean operator!=(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        if (w1._u< w2._l || w1._l> w2._u) { return true; } else if (w1._l>=w2._u && w1._u<=w2._l) { return false; } else { return indeterminate; } }
+    friend ValidatedKleenean operator<=(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        if (w1._u<=w2._l) { return true; } else if (w1._l> w2._u) { return false; } else { return indeterminate; } }
+    friend ValidatedKleenean operator>=(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        if (w1._l>=w2._u) { return true; } else if (w1._u< w2._l) { return false; } else { return indeterminate; } }
+    friend ValidatedKleenean operator< (Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        if (w1._u< w2._l) { return true; } else if (w1._l>=w2._u) { return false; } else { return indeterminate; } }
+    friend ValidatedKleenean operator> (Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        if (w1._l> w2._u) { return true; } else if (w1._u<=w2._l) { return false; } else { return indeterminate; } }
+    friend Bool consistent(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return w1._l<=w2._u && w1._u >= w2._l; }
+    friend Boolean inconsistent(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return w1._l>w2._u || w1._u < w2._l; }
+    friend Boolean refines(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return w1._l>=w2._l and w1._u<=w2._u; }
+    friend Bounds<Dyadic> refinement(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return Bounds<Dyadic>(max(w1._l,w2._l),min(w1._u,w2._u)); }
+    friend Bounds<Dyadic> coarsening(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return Bounds<Dyadic>(min(w1._l,w2._l),max(w1._u,w2._u)); }
+    friend OutputStream& operator<<(OutputStream& os, Bounds<Dyadic> y) { return os << "[" << y._l << ":" << y._u << "]"; }
+};
+
+
+template<> class Ball<Dyadic,Dyadic> {
+    Dyadic _v, _e;
+  public:
+    Ball(Dyadic w) : _v(w), _e(0) { }
+    Ball(Dyadic v, Dyadic e) : _v(v), _e(e) { }
+    template<class X, class XE> requires Constructible<Dyadic,X> and Constructible<Dyadic,XE>
+    Ball(Ball<X,XE> const& x)
+        : Ball(Dyadic(x.value_raw()),Dyadic(x.error_raw())) { }
+    explicit Ball(Bounds<Dyadic> const& w) : _v(hlf(w.lower()+w.upper())), _e(hlf(w.upper()-w.lower())) { }
+    explicit operator Bounds<Dyadic>() const { return Bounds<Dyadic>(_v-_e,_v+_e); }
+    operator ValidatedNumber() const;
+    Dyadic value() const { return _v; }
+    Dyadic error() const { return _e; }
+    Dyadic value_raw() const { return _v; }
+    Dyadic error_raw() const { return _e; }
+    friend DyadicBall operator+(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(w1._v+w2._v,w1._e+w2._e); }
+    friend DyadicBall operator-(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(w1._v-w2._v,w1._e+w2._e); }
+    friend DyadicBall operator*(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(w1._v*w2._v,abs(w1._v)*w2._e+w1._e*abs(w2._v)+w1._e*w2._e); }
+    friend DyadicBall abs(DyadicBall const& w) {
+        if (abs(w._v)>=w._e) { return DyadicBall(abs(w._v),w._e); } else { Dyadic av=hlf(max(w._e-w._v,w._v+w._e)); return DyadicBall(av,av); } }
+    friend ValidatedKleenean operator<(DyadicBall const& w1, DyadicBall const& w2) {
+        if (w1._v+w1._e<w2._v-w2._e) { return true; } else if (w1._v-w1._e >= w2._v+w2._e) { return false; } else { return indeterminate; } }
+    friend Boolean inconsistent(DyadicBall const& w1, DyadicBall const& w2) { return abs(w1._v-w2._v) > w1._e+w2._e; }
+    friend Boolean refines(DyadicBall const& w1, DyadicBall const& w2) { return abs(w1._v-w2._v)+w1._e <= w2._e; }
+    friend DyadicBall refinement(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(refinement(DyadicBounds(w1),DyadicBounds(w2))); }
+    friend DyadicBall coarsening(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(coarsening(DyadicBounds(w1),DyadicBounds(w2))); }
+    friend OutputStream& operator<<(OutputStream& os, DyadicBall y) { return os << "[" << y._v << ":" << y._e << "]"; }
+};
+
+template<> class LowerBound<Dyadic> {
+    Dyadic _l;
+  public:
+    LowerBound(Dyadic l) : _l(l) { }
+    LowerBound(Bounds<Dyadic> lu) : _l(lu.lower_raw()) { }
+    LowerBound(LowerBound<FloatDP> const& x);
+    LowerBound(LowerBound<FloatMP> const& x);
+    Dyadic raw() const { return _l; }
+    LowerBound<FloatDP> get(DoublePrecision pr) const;
+    LowerBound<FloatMP> get(MultiplePrecision pr) const;
+    friend OutputStream& operator<<(OutputStream& os, LowerBound<Dyadic> const& y) { return os << y._l << ":"; }
+};
+
+template<> class UpperBound<Dyadic> {
+    Dyadic _u;
+  public:
+    explicit UpperBound(Dyadic u) : _u(u) { }
+    UpperBound(Bounds<Dyadic> lu) : _u(lu.upper_raw()) { }
+    UpperBound(UpperBound<FloatDP> const& x);
+    UpperBound(UpperBound<FloatMP> const& x);
+    Dyadic raw() const { return _u; }
+    UpperBound<FloatDP> get(DoublePrecision pr) const;
+    UpperBound<FloatMP> get(MultiplePrecision pr) const;
+    friend OutputStream& operator<<(OutputStream& os, UpperBound<Dyadic> const& y) { return os << ":" << y._u; }
+};
+
+template<> class Approximation<Dyadic> {
+    Dyadic _a;
+  public:
+    Approximation(Dyadic a) : _a(a) { }
+    Approximation(Approximation<FloatDP> const& x);
+    Approximation(Approximation<FloatMP> const& x);
+    Dyadic raw() const { return _a; }
+    Approximation<FloatDP> get(DoublePrecision pr) const;
+    Approximation<FloatMP> get(MultiplePrecision pr) const;
+    friend OutputStream& operator<<(OutputStream& os, Approximation<Dyadic> const& y);
+};
+
+template<> class Positive<Bounds<Dyadic>> : public Bounds<Dyadic> { public: Positive(Bounds<Dyadic> w) : Bounds<Dyadic>(w) { }; };
+template<> class Positive<LowerBound<Dyadic>> : public LowerBound<Dyadic> { public: Positive(LowerBound<Dyadic> w) : LowerBound<Dyadic>(w) { }; };
+template<> class Positive<UpperBound<Dyadic>> : public UpperBound<Dyadic> { public: Positive(UpperBound<Dyadic> w) : UpperBound<Dyadic>(w) { } ; };
+template<> class Positive<Approximation<Dyadic>> : public Approximation<Dyadic> { public: Positive(Approximation<Dyadic> w) : Approximation<Dyadic>(w) { } };
+
+inline Dyadic operator"" _dyadic(long double x) { return Dyadic(static_cast<double>(x)); }
+inline Dyadic operator"" _dy(long double x) { return operator"" _dyadic(x); }
+inline Dyadic operator"" _q2(long double x) { return operator"" _dyadic(x); }
+inline Dyadic operator"" _bin(long double x) { return operator"" _dyadic(x); }
+
+Comparison cmp(Dyadic const& x1, Dyadic const& x2);
+Dyadic make_dyadic(unsigned long long int n);
+
+} // namespace Ariadne
+
+#endif
-- 
2.43.0


From ecfc0d831daa7c30f3cd77955ab27a533d64dff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 08/63] fix: do not swap bounds in hlf of Bounds<Rational>

---
 source/numeric/rational.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index 711910c..a1cd0e9 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -663,7 +663,7 @@ RationalBounds pos(RationalBounds const& q) {
 RationalBounds neg(RationalBounds const& q) {
     return RationalBounds(neg(q._u),neg(q._l)); }
 RationalBounds hlf(RationalBounds const& q) {
-    return RationalBounds(hlf(q._u),hlf(q._l)); }
+    return RationalBounds(hlf(q._l),hlf(q._u)); }
 RationalBounds sqr(RationalBounds const& q) {
     return _sqr(RoundExact(),q); }
 RationalBounds rec(RationalBounds const& q) {
-- 
2.43.0


From 1dabaee0916ea07b1e1c3b86eee80400f6733e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 09/63] fix: use absolute value in even powers of
 Bounds<Rational>

---
 source/numeric/rational.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index a1cd0e9..351eef8 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -678,7 +678,7 @@ RationalBounds mul(RationalBounds const& q1, RationalBounds const& q2) {
 RationalBounds div(RationalBounds const& q1, RationalBounds const& q2) {
     return _div(RoundExact(),q1,q2); }
 RationalBounds pow(RationalBounds const& q, Nat m) {
-    RationalBounds r = (m%2==0) ? abs(q) : q;  Int n=static_cast<Int>(m); return RationalBounds(pow(q._l,n),pow(q._u,n)); }
+    RationalBounds r = (m%2==0) ? abs(q) : q;  Int n=static_cast<Int>(m); return RationalBounds(pow(r._l,n),pow(r._u,n)); }
 RationalBounds pow(RationalBounds const& q, Int n) {
     if(n<0) { return pow(rec(q),Nat(-n)); } else return pow(q,Nat(n));}
 
-- 
2.43.0


From 3dda0d018fefc308bdd3f416200bd2aa24248553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 10/63] fix: conversion of negative 32-bit and large 64-bit
 integers to Integer

---
 source/numeric/integer.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index 374ee33..b6011bd 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -55,30 +55,22 @@ Integer::Integer(Nat32 m) {
 
 Integer::Integer(Int32 n) {
     mpz_init(_mpz);
-    mpz_set_ui(_mpz,static_cast<long unsigned int>(n.get_si()));
+    mpz_set_si(_mpz,n.get_si());
 }
 
 Integer::Integer(Nat64 m) {
     mpz_init(_mpz);
-    static const unsigned int max=std::numeric_limits<Int>::max();
-    static const unsigned long long int lmax=max;
-    static const Integer zmax=Integer(Int32(max));
-    unsigned long long int larg = m.get_ui();
-    unsigned long long int lquot = larg / lmax;
-    unsigned long long int lrem = larg % lmax;
-    unsigned int rem = static_cast<unsigned int>(lrem);
-    unsigned int quot = static_cast<unsigned int>(lquot);
-    ARIADNE_ASSERT(larg==lquot*lmax+lrem);
-    mpz_set_ui(_mpz,rem);
-    if(lquot!=0) {
-        *this += Integer(quot)*zmax;
-    }
+    // Use two 32-bit parts, since unsigned long int may only have 32 bits.
+    uint64_t arg = m.get_ui();
+    mpz_set_ui(_mpz,static_cast<unsigned long int>(arg>>32));
+    mpz_mul_2exp(_mpz,_mpz,32u);
+    mpz_add_ui(_mpz,_mpz,static_cast<unsigned long int>(arg & 0xffffffffu));
 }
 
 Integer::Integer(Int64 n) {
     mpz_init(_mpz);
     if(n.get_si()<0) {
-        *this = -Integer(Nat64(-n.get_si()));
+        *this = -Integer(Nat64(uint64_t(0)-static_cast<uint64_t>(n.get_si())));
     } else {
         *this = Integer(Nat64(n.get_si()));
     }
-- 
2.43.0


From ef2086cc769d8347a00ae1456e9a3061317ad491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 11/63] fix: make rem of Integer consistent with quot

---
 source/numeric/integer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index b6011bd..f3f846c 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -191,7 +191,7 @@ Integer quot(Integer const& z1, Integer const& z2) {
 
 Integer rem(Integer const& z1, Integer const& z2) {
     Integer r;
-    mpz_cdiv_r(r._mpz,z1._mpz,z2._mpz);
+    mpz_fdiv_r(r._mpz,z1._mpz,z2._mpz);
     return r;
 }
 
-- 
2.43.0


From 1ab8b83b5b64e76240b95c40ab028fd3d3b83d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 12/63] fix: construct Dyadic from the given mpf

---
 source/numeric/dyadic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/dyadic.cpp b/source/numeric/dyadic.cpp
index 03bac1d..c5374f1 100644
--- a/source/numeric/dyadic.cpp
+++ b/source/numeric/dyadic.cpp
@@ -108,7 +108,7 @@ Dyadic::Dyadic() {
 
 Dyadic::Dyadic(mpf_t mpf) {
     mpf_init2(_mpf,maximum_precision);
-    mpf_set(_mpf,_mpf);
+    mpf_set(_mpf,mpf);
 }
 
 Dyadic::Dyadic(Integer const& p, Natural q) {
-- 
2.43.0


From 004ccbbb631bb54ed3252c8f1eb53af9bcd0bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:20 +0000
Subject: [PATCH 13/63] fix: compare the lower bounds for equality in equal of
 intervals

---
 source/geometry/interval.inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.inl.hpp b/source/geometry/interval.inl.hpp
index 2740e91..1b41f77 100644
--- a/source/geometry/interval.inl.hpp
+++ b/source/geometry/interval.inl.hpp
@@ -88,7 +88,7 @@ template<class U, class X> inline auto contains(Interval<U> const& ivl1, X const
     return ivl1.lower_bound()<=x2 && ivl1.upper_bound()>=x2; }
 
 template<class U> inline auto equal(Interval<U> const& ivl1, Interval<U> const& ivl2) -> decltype(ivl1.upper_bound()==ivl2.upper_bound()) {
-    return ivl1.lower_bound()<=ivl2.lower_bound() && ivl1.upper_bound()==ivl2.upper_bound(); }
+    return ivl1.lower_bound()==ivl2.lower_bound() && ivl1.upper_bound()==ivl2.upper_bound(); }
 
 template<class UB1, class UB2> inline auto subset(Interval<UB1> const& ivl1, Interval<UB2> const& ivl2) -> decltype(ivl1.upper_bound()<=ivl2.upper_bound()) {
     return ivl1.lower_bound()>=ivl2.lower_bound() && ivl1.upper_bound()<=ivl2.upper_bound(); }
-- 
2.43.0


From 412e94a2f481e653b6bd764bc2d2177afe9f111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:20 +0000
Subject: [PATCH 14/63] fix: use the outward rounded lower bound in
 widen_domain

---
 source/geometry/interval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.cpp b/source/geometry/interval.cpp
index 0a17da9..4303271 100644
--- a/source/geometry/interval.cpp
+++ b/source/geometry/interval.cpp
@@ -49,7 +49,7 @@ Interval<FloatDP> widen_domain(Interval<FloatDPUpperBound> const& ivl) {
     if(l==u) { neg_rl=neg_rl+min; ru=ru+min; }
     if(neg_rl<neg_l) { neg_rl=neg_rl+min; }
     if(ru<u) { ru=ru+min; }
-    volatile float rl=-neg_l;
+    volatile float rl=-neg_rl;
     Interval<FloatDP> res(ExactDouble(rl),ExactDouble(ru),dp);
     FloatDP::set_rounding_mode(rnd);
     return res;
-- 
2.43.0


From a11bd1c626d1c1e14dc28fa691827772284ff3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:20 +0000
Subject: [PATCH 15/63] fix: bound the distance to the returned value in
 add_err of a coefficient and bounds

---
 source/function/taylor_model.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index 2a42577..b04a03c 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -637,7 +637,7 @@ template<class F> F add_err(F const& x, ValidatedApproximation<F> const& c, Erro
     F::set_rounding_upward();
     Rounded<F> u=xv+cu;
     Rounded<F> ml=(-xv)-cl;
-    re += hlf(u+ml);
+    re += max(u-rv,ml+rv);
     return F(rv);
 }
 
-- 
2.43.0


From d24cea8ee933e75dbbb7d123f2aa8dda177bd8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:20 +0000
Subject: [PATCH 16/63] fix: bound the distance to the returned value in
 fma_err of coefficients

---
 source/function/taylor_model.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index b04a03c..14e784b 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -823,7 +823,7 @@ template<class F> F fma_err(F const& x, F const& y, F z, Error<F>& e) {
     Rounded<F> myv=-yv;
     Rounded<F> u=xv*yv+zv;
     Rounded<F> ml=xv*myv-zv;
-    re+=(u+ml)/2;
+    re+=max(u-rv,ml+rv);
     return F(rv);
 }
 
-- 
2.43.0


From 051295648a09aca4cb61558d1ace7f714586b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:20 +0000
Subject: [PATCH 17/63] fix: add swept terms with interval coefficients to the
 error

---
 source/function/taylor_model.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index 14e784b..66ab321 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -249,7 +249,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatBounds<PR>>& p, FloatError
     while(adv!=end) {
         if(this->_discard(adv->index(),mag(adv->coefficient()).raw())) {
             //te+=abs(adv->coefficient());
-            te+mag(adv->coefficient());
+            te+=mag(adv->coefficient());
         } else {
             *curr=*adv;
             ++curr;
@@ -294,7 +294,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatUpperInterval<PR>>& p, Flo
     while(adv!=end) {
         if(this->_discard(adv->index(),mag(adv->coefficient()).raw())) {
             //te+=abs(adv->coefficient());
-            te+mag(adv->coefficient());
+            te+=mag(adv->coefficient());
         } else {
             *curr=*adv;
             ++curr;
-- 
2.43.0


From edee8fbe069790c9ece912344e7c3db5055c13c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:49 +0000
Subject: [PATCH 18/63] fix: Build constant Taylor models by addition, so that
 the error covers inexact constants

---
 source/function/taylor_model.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index 66ab321..829c5d7 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -480,11 +480,11 @@ template<class P, class F> TaylorModel<P,F> TaylorModel<P,F>::scaling(SizeType a
 
 template<class P, class F> auto
 TaylorModel<P,F>::constant(SizeType as, const NumericType& c, SweeperType swp) -> TaylorModel<P,F> {
-    TaylorModel<P,F> r(as,swp); r.set_value(CoefficientType(1,r.precision())); r*=c; return r;
+    TaylorModel<P,F> r(as,swp); r.set_value(CoefficientType(0,r.precision())); r+=c; return r;
 }
 template<class P, class F> auto
 TaylorModel<P,F>::constant(SizeType as, const GenericNumericType& c, SweeperType swp) -> TaylorModel<P,F> {
-    TaylorModel<P,F> r(as,swp); r.set_value(CoefficientType(1,r.precision())); r*=c; return r;
+    TaylorModel<P,F> r(as,swp); r.set_value(CoefficientType(0,r.precision())); r+=c; return r;
 }
 
 
-- 
2.43.0


From 5d39367263c256cdb23612d01b375c73bc623ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:53 +0000
Subject: [PATCH 19/63] fix: allocate all terms of a univariate derivative

---
 source/algebra/univariate_differential.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/univariate_differential.tpl.hpp b/source/algebra/univariate_differential.tpl.hpp
index 6f39dba..fa7b4fd 100644
--- a/source/algebra/univariate_differential.tpl.hpp
+++ b/source/algebra/univariate_differential.tpl.hpp
@@ -119,7 +119,7 @@ UnivariateDifferential<X>
 UnivariateDifferential<X>::_derivative(const UnivariateDifferential<X>& x)
 {
     DegreeType n=x.degree(); DegreeType one=1u;
-    UnivariateDifferential<X> r(std::min(n,one)-one,x.zero_coefficient());
+    UnivariateDifferential<X> r(std::max(n,one)-one,x.zero_coefficient());
     if(n==0) { r[0]=x[0]*0; }
     for(DegreeType i=0; i<n; ++i) {
         r[i]=(i+1u)*x[i+1u];
-- 
2.43.0


From 6efdd4683da53bf98494adc8068f17a133637aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:53 +0000
Subject: [PATCH 20/63] fix: index affine differentials by variable

---
 source/algebra/differential.tpl.hpp | 1864 +++++++++++++--------------
 1 file changed, 932 insertions(+), 932 deletions(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 7260603..6b6824b 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -1,932 +1,932 @@
-/***************************************************************************
- *            differential.tpl.hpp
- *
- *  Copyright  2008-20  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-#include <map>
-
-#include "utility/macros.hpp"
-#include "utility/array.hpp"
-#include "numeric/float.decl.hpp"
-#include "algebra/vector.hpp"
-#include "algebra/covector.hpp"
-#include "algebra/matrix.hpp"
-#include "algebra/multi_index.hpp"
-#include "algebra/series.hpp"
-#include "algebra/expansion.hpp"
-#include "algebra/expansion.inl.hpp"
-
-namespace Ariadne {
-
-template<class X> class Vector;
-template<class X> class Matrix;
-template<class X> class Series;
-
-template<class I, class X> class Expansion;
-template<class X> class Differential;
-
-
-inline DegreeType min(DegreeType d1, DegreeType d2) { return std::min(d1,d2); }
-inline DegreeType max(DegreeType d1, DegreeType d2) { return std::max(d1,d2); }
-
-//template<class X> Differential<X>::Differential() : _expansion(0), _degree(0) { }
-
-template<class X> Differential<X>::Differential(SizeType as, DegreeType deg, X const& z) : _expansion(as,z), _degree(deg) { }
-
-template<class X> Differential<X>::Differential(const Map<MultiIndex,X>& map, DegreeType deg)
-    : _expansion(0u,(assert(!map.empty()),nul(map.begin()->second)))
-{
-    ARIADNE_NOT_IMPLEMENTED;
-}
-
-template<class X>
-Differential<X>::Differential(SizeType as, DegreeType deg,
-                              InitializerList< Pair<InitializerList<DegreeType>,X> > lst)
-    : _expansion(Expansion<MultiIndex,X>(lst)), _degree(deg)
-{
-    this->cleanup();
-}
-
-
-template<class X> Differential<X>::Differential(const Expansion<MultiIndex,X>& e, DegreeType deg)
-    : _expansion(e.argument_size(),e.zero_coefficient()),_degree(deg)
-{
-    for(typename Expansion<MultiIndex,X>::ConstIterator iter=e.begin(); iter!=e.end(); ++iter) {
-        if(iter->index().degree()<=deg) { this->_expansion.append(iter->index(),iter->coefficient()); }
-    }
-    this->cleanup();
-}
-
-
-template<class X> Differential<X>& Differential<X>::operator=(const X& c) {
-    this->_expansion.clear();
-    this->_expansion.append(MultiIndex(this->argument_size()),c);
-    return *this;
-}
-
-
-template<class X> Differential<X> Differential<X>::constant(SizeType as, DegreeType deg, const X& c) {
-    Differential<X> r(as,deg,nul(c));
-    r._expansion.append(MultiIndex(as),c);
-    return r;
-}
-
-template<class X> Differential<X> Differential<X>::variable(SizeType as, DegreeType deg, const X& v, SizeType j) {
-    Differential<X> r(as,deg,nul(v));
-    MultiIndex a(as);
-    r._expansion.append(a,v);
-    a[j]=1;
-    X one(v); one=1;
-    r._expansion.append(a,one);
-    return r;
-}
-
-template<class X> Differential<X> Differential<X>::affine(SizeType as, DegreeType deg, const X& x, const Covector<X>& g) {
-    ARIADNE_ASSERT_MSG(as==g.size(), "g.size()="<<g.size()<<" must equal as="<<as);
-    Differential<X> r(as,deg,nul(x));
-    MultiIndex a(as);
-    r._expansion.append(a,x);
-    for (SizeType j=0; j!=as; ++j) {
-        a[j]=1;
-        r._expansion.append(a,g[j]);
-        a[j]=0;
-    }
-    return r;
-}
-
-template<class X> Differential<X> Differential<X>::affine(DegreeType deg, const X& x, const Covector<X>& g) {
-    return affine(g.size(),deg,x,g);
-}
-
-
-template<class X> Vector<Differential<X>> Differential<X>::constants(SizeType rs, SizeType as, DegreeType deg, const Vector<X>& c) {
-    ARIADNE_ASSERT(c.size()==rs);
-    return constants(as,deg,c);
-}
-
-template<class X> Vector<Differential<X>> Differential<X>::variables(SizeType rs, SizeType as, DegreeType deg, const Vector<X>& x) {
-    ARIADNE_ASSERT(x.size()==rs);  ARIADNE_ASSERT(as==x.size());
-    return variables(deg,x);
-}
-
-template<class X> Vector<Differential<X>> Differential<X>::constants(SizeType as, DegreeType deg, const Vector<X>& c) {
-    Vector<Differential<X>> r(c.size(),Differential(as,deg,c.zero_element()));
-    for(SizeType i=0; i!=c.size(); ++i) { r[i]=c[i]; }
-    return r;
-}
-
-template<class X> Vector<Differential<X>> Differential<X>::variables(DegreeType deg, const Vector<X>& v) {
-    X zero=v.zero_element();
-    Vector<Differential<X>> r(v.size(),Differential<X>(v.size(),deg,zero));
-    X& one=zero; one=1;
-    MultiIndex a(v.size());
-    for(SizeType i=0; i!=v.size(); ++i) {
-        r[i]._expansion.append(a,v[i]);
-        a[i]=1; r[i]._expansion.append(a,one); a[i]=0;
-    }
-    return r;
-}
-
-template<class X> Vector<Differential<X>> Differential<X>::affine(DegreeType deg, const Vector<X>& v, const Matrix<X>& G) {
-    X zero=v.zero_element();
-    Vector<Differential<X>> r(v.size(),Differential<X>(v.size(),deg,zero));
-    MultiIndex a(r.argument_size());
-    for(SizeType i=0; i!=r.size(); ++i) {
-        r[i]._expansion.append(a,v[i]);
-        for(SizeType j=0; j!=r.argument_size(); ++j) {
-            const X& gij=G[i][j];
-            if(decide(gij!=0)) { a[i]=1; r[i]._expansion.append(a,gij); a[i]=0; }
-        }
-    }
-    return r;
-}
-
-
-template<class X> Differential<X> Differential<X>::identity(DegreeType deg, const X& x) {
-    return variable(1u,deg,x,0u);
-}
-template<class X> Vector<Differential<X>> Differential<X>::identity(DegreeType deg, const Vector<X>& x) {
-    return variables(deg,x);
-}
-
-
-template<class X> EqualityType<X> Differential<X>::operator==(const Differential<X>& other) const {
-    Differential<X> const& self=*this;
-    if(self.argument_size()!=other.argument_size()) { return false; }
-    EqualityType<X> result=true;
-    IndexComparisonType less;
-    ConstIterator self_iter=self.begin(); ConstIterator other_iter=other.begin();
-    while(self_iter!=self.end() && other_iter!=other.end()) {
-        if(self_iter->index()==other_iter->index()) {
-            result = result && (self_iter->coefficient()==other_iter->coefficient());
-            ++self_iter; ++other_iter;
-        } else if (less(self_iter->index(), other_iter->index())) {
-            result = result && static_cast<EqualityType<X>>(self_iter->coefficient()==0);
-            ++self_iter;
-        } else { // (self_iter->index() > other_iter->index())
-            result = result && static_cast<EqualityType<X>>(other_iter->coefficient()==0);
-            ++other_iter;
-        }
-    }
-    while(self_iter!=self.end()) {
-        result = result && static_cast<EqualityType<X>>(self_iter->coefficient()==0);
-        ++self_iter;
-    }
-    while(other_iter!=other.end()) {
-        result = result && static_cast<EqualityType<X>>(other_iter->coefficient()==0);
-        ++other_iter;
-    }
-    return result;
-}
-
-template<class X> InequalityType<X> Differential<X>::operator!=(const Differential<X>& other) const {
-    return !(*this==other);
-}
-
-
-template<class X> SizeType Differential<X>::argument_size() const {
-    return this->_expansion.argument_size();
-}
-
-template<class X> DegreeType Differential<X>::degree() const {
-    return this->_degree;
-}
-
-template<class X> X Differential<X>::zero_coefficient() const {
-    return this->_expansion.zero_coefficient();
-}
-
-template<class X> const Expansion<MultiIndex,X>& Differential<X>::expansion() const {
-    return this->_expansion;
-}
-
-template<class X> Expansion<MultiIndex,X>& Differential<X>::expansion() {
-    return this->_expansion;
-}
-
-template<class X> const X& Differential<X>::value() const {
-    return this->operator[](MultiIndex(this->argument_size()));
-}
-
-template<class X> const X& Differential<X>::gradient(SizeType j) const {
-    return this->operator[](MultiIndex::unit(this->argument_size(),j));
-}
-
-template<class X> Covector<X> Differential<X>::gradient() const {
-    Covector<X> g(this->argument_size(),this->zero_coefficient());
-    for(SizeType j=0; j!=g.size(); ++j) { g[j]=this->gradient(j); }
-    return g;
-}
-
-template<class X> Matrix<X> Differential<X>::half_hessian() const {
-    ARIADNE_PRECONDITION(this->degree()>=2);
-    Matrix<X> H(this->argument_size(),this->argument_size(),nul(this->value()));
-    ConstIterator iter=this->begin();
-    while(iter!=this->end() && iter->index().degree()<=1) { ++iter; }
-    SizeType i=0; SizeType j=1;
-    while(iter!=this->end() && iter->index().degree()<=2) {
-        UniformConstReference<MultiIndex> a=iter->index();
-        UniformConstReference<X> c=iter->coefficient();
-        while(a[i]==0) { ++i; j=i+1u; }
-        if(a[i]==2) { H[i][i]=c; }
-        else { while(a[j]==0) { ++j; } H[i][j]=hlf(c); H[j][i]=hlf(c); }
-        ++iter;
-    }
-    return H;
-}
-
-template<class X> Matrix<X> Differential<X>::hessian() const {
-    return this->half_hessian()*2;
-}
-
-
-template<class X> X& Differential<X>::operator[](const SizeType& j) {
-    return this->operator[](MultiIndex::unit(this->argument_size(),j));
-}
-
-template<class X> const X& Differential<X>::operator[](const SizeType& j) const {
-    return this->operator[](MultiIndex::unit(this->argument_size(),j));
-}
-
-template<class X> X& Differential<X>::operator[](const MultiIndex& a) {
-    ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
-    return this->_expansion.at(a);
-}
-
-template<class X> const X& Differential<X>::operator[](const MultiIndex& a) const {
-    ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
-    ConstIterator iter=this->_expansion.find(a);
-    if(iter==this->_expansion.end()) { return this->_expansion.zero_coefficient(); }
-    else { return iter->coefficient(); }
-}
-
-
-template<class X> Void Differential<X>::set_degree(DegreeType deg) {
-    if(deg<this->_degree) {
-        for(auto iter = this->_expansion.begin(); iter!=this->_expansion.end(); ++iter) {
-            if (iter->index().degree() > deg) {
-                this->_expansion.resize(static_cast<SizeType>(iter-this->_expansion.begin()));
-                break;
-            }
-        }
-    }
-    this->_degree = deg;
-}
-
-template<class X> Void Differential<X>::set_value(const X& c) {
-    this->operator[](MultiIndex(this->argument_size()))=c;
-}
-
-template<class X> Void Differential<X>::set_gradient(SizeType j, const X& d) {
-    this->operator[](MultiIndex::unit(this->argument_size(),j))=d;
-}
-
-
-template<class X> typename Differential<X>::Iterator Differential<X>::begin() {
-    return this->_expansion.begin();
-}
-
-template<class X> typename Differential<X>::Iterator Differential<X>::end() {
-    return this->_expansion.end();
-}
-
-template<class X> typename Differential<X>::ConstIterator Differential<X>::begin() const {
-    return this->_expansion.begin();
-}
-
-template<class X> typename Differential<X>::ConstIterator Differential<X>::end() const {
-    return this->_expansion.end();
-}
-
-
-template<class X> Differential<X> Differential<X>::create() const {
-    return Differential<X>(this->argument_size(),this->degree(),this->zero_coefficient());
-}
-
-template<class X> Differential<X> Differential<X>::create_zero() const {
-    return Differential<X>(this->argument_size(),this->degree(),this->zero_coefficient());
-}
-
-template<class X> Differential<X> Differential<X>::create_constant(NumericType const& c) const {
-    return Differential<X>::constant(this->argument_size(),this->degree(),c);
-}
-
-template<class X> Differential<X> Differential<X>::create_constant(Int c) const {
-    X xc=this->value(); xc=c; return Differential<X>::constant(this->argument_size(),this->degree(),xc);
-}
-
-
-template<class X> Void Differential<X>::clear() {
-    this->_expansion.clear();
-}
-
-template<class X> Void Differential<X>::cleanup() {
-    this->_expansion.sort();
-    this->_expansion.combine_terms();
-    this->_expansion.remove_zeros();
-}
-
-template<class X> Void Differential<X>::check() const {
-    for(auto iter=this->begin(); iter!=this->end(); ++iter) {
-        ARIADNE_ASSERT_MSG(iter->index().degree()<=this->degree(), *this);
-        auto next = iter; ++next;
-        ARIADNE_ASSERT_MSG(graded_less(iter->index(),next->index()),"ErrorTag in ordering Differential "<<this->expansion());
-    }
-}
-
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Pos op, Differential<X> x)
-{
-    for(auto iter=x.begin(); iter!=x.end(); ++iter) {
-        UniformReference<X> xa=iter->coefficient();
-        xa=+xa;
-    }
-    return x;
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Neg op, Differential<X> x)
-{
-    for(auto iter=x.begin(); iter!=x.end(); ++iter) {
-        UniformReference<X> xa=iter->coefficient();
-        xa=-xa;
-    }
-    return x;
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Add op, Differential<X> x, const X& c)
-{
-    MultiIndex a(x.argument_size());
-    if(x.expansion().empty()) {
-        x.expansion().append(a,c);
-    } else if(x.begin()->index()!=a) {
-        x.expansion().prepend(a,c);
-    } else {
-        x.begin()->coefficient()+=c;
-    }
-    return x;
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Mul op, Differential<X> x, const X& c)
-{
-    if(decide(c==0)) {
-        x.clear();
-    } else {
-        for(auto iter=x.begin(); iter!=x.end(); ++iter) {
-            iter->coefficient()*=c;
-        }
-    }
-    return x;
-}
-
-
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Add op, const Differential<X>& x, const Differential<X>& y)
-{
-    ARIADNE_ASSERT_MSG(x.argument_size()==y.argument_size(),"x="<<x<<" y="<<y);
-    Differential<X> r(x.argument_size(),min(x.degree(),y.degree()),add(x.zero_coefficient(),y.zero_coefficient()));
-    typename Differential<X>::ConstIterator xiter=x.begin();
-    typename Differential<X>::ConstIterator yiter=y.begin();
-    // No need to check if maximum degree has been reached below,
-    // since if one Iterator is above the maximum degree, the other is at the end.
-    while(xiter!=x.end() && yiter!=y.end()) {
-        if(xiter->index()==yiter->index()) {
-            r.expansion().append(xiter->index(),xiter->coefficient()+yiter->coefficient());
-            ++xiter; ++yiter;
-        } else if(graded_less(xiter->index(),yiter->index())) {
-            r.expansion().append(xiter->index(),xiter->coefficient());
-            ++xiter;
-        } else {
-            r.expansion().append(yiter->index(),yiter->coefficient());
-            ++yiter;
-        }
-    }
-    while(xiter!=x.end() && xiter->index().degree()<=r.degree()) {
-        r.expansion().append(xiter->index(),xiter->coefficient());
-        ++xiter;
-    }
-    while(yiter!=y.end() && yiter->index().degree()<=r.degree()) {
-        r.expansion().append(yiter->index(),yiter->coefficient());
-        ++yiter;
-    }
-    //std::cerr<<"x="<<x<<" y="<<y<<" x+y="<<r<<"\n";
-    return r;
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Sub op, const Differential<X>& x, const Differential<X>& y)
-{
-    ARIADNE_ASSERT_MSG(x.argument_size()==y.argument_size(),"x="<<x<<" y="<<y);
-    Differential<X> r(x.argument_size(),min(x.degree(),y.degree()),sub(x.zero_coefficient(),y.zero_coefficient()));
-    typename Differential<X>::ConstIterator xiter=x.begin();
-    typename Differential<X>::ConstIterator yiter=y.begin();
-    // No need to check if maximum degree has been reached below,
-    // since if one Iterator is above the maximum degree, the other is at the end.
-    while(xiter!=x.end() && yiter!=y.end()) {
-        if(xiter->index()==yiter->index()) {
-            r.expansion().append(xiter->index(),xiter->coefficient()-yiter->coefficient());
-            ++xiter; ++yiter;
-        } else if(graded_less(xiter->index(),yiter->index())) {
-            r.expansion().append(xiter->index(),xiter->coefficient());
-            ++xiter;
-        } else {
-            r.expansion().append(yiter->index(),-yiter->coefficient());
-            ++yiter;
-        }
-    }
-    while(xiter!=x.end() && xiter->index().degree()<=r.degree()) {
-        r.expansion().append(xiter->index(),xiter->coefficient());
-        ++xiter;
-    }
-    while(yiter!=y.end() && yiter->index().degree()<=r.degree()) {
-        r.expansion().append(yiter->index(),-yiter->coefficient());
-        ++yiter;
-    }
-    //std::cerr<<"x="<<x<<" y="<<y<<" x-y="<<r<<"\n";
-    return r;
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Mul op, const Differential<X>& x, const Differential<X>& y)
-{
-    typedef typename Differential<X>::ConstIterator ConstIterator;
-    ARIADNE_ASSERT_MSG(x.argument_size()==y.argument_size(),"x="<<x<<" y="<<y);
-    Differential<X> r(x.argument_size(),min(x.degree(),y.degree()),mul(x.zero_coefficient(),y.zero_coefficient()));
-    MultiIndex a(x.argument_size());
-    X c(x.zero_coefficient()*y.zero_coefficient());
-    for(ConstIterator xiter=x.expansion().begin(); xiter!=x.expansion().end(); ++xiter) {
-        if(xiter->index().degree()>r.degree()) { break; }
-        for(ConstIterator yiter=y.expansion().begin(); yiter!=y.expansion().end(); ++yiter) {
-            if(xiter->index().degree()+yiter->index().degree()>r.degree()) { break; }
-            a=xiter->index()+yiter->index();
-            c=xiter->coefficient()*yiter->coefficient();
-            r.expansion().append(a,c);
-        }
-    }
-    r.cleanup();
-    //std::cerr<<"x="<<x<<" y="<<y<<" x*y="<<r<<"\n";
-    return r;
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Div op, const Differential<X>& x, const Differential<X>& y)
-{
-    return x * rec(y);
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Pow op, const Differential<X>& x, Int n)
-{
-    return generic_pow(x,n);
-}
-
-
-template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Min op, const Differential<X>& x1, const Differential<X>& x2) {
-    // FIXME: Maybe need different code for validated and approximate paradigms
-    ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
-    if(decide(x1.value()==x2.value())) {
-        ARIADNE_THROW(std::runtime_error,"min(Differential<X> x1, Differential<X> x2)","x1[0]==x2[0]");
-    }
-    return decide(x1.value()<x2.value()) ? x1 : x2;
-}
-
-
-template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Max op, const Differential<X>& x1,const Differential<X>& x2) {
-    ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
-    if(decide(x1.value()==x2.value())) {
-        ARIADNE_THROW(std::runtime_error,"max(Differential<X> x1, Differential<X> x2)","x1[0]==x2[0]");
-    }
-    return decide(x1.value()>x2.value()) ? x1 : x2;
-}
-
-template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Abs op, const Differential<X>& x) {
-    // FIXME: Maybe need different code for validated and approximate paradigms
-    if(decide(x.value()==0)) {
-        ARIADNE_THROW(std::runtime_error,"abs(Differential<X> x)","x[0]==0");
-    }
-    return decide(x.value()>0) ? pos(x) : neg(x);
-}
-
-
-
-
-template<class X> Differential<X> _evaluate(const Differential<X>& x, const Vector<Differential<X>>& a)
-{
-    ARIADNE_ASSERT_MSG(x.argument_size()==a.size(), "x="<<x<<" a="<<a);
-    DegreeType d=x.degree();
-    SizeType ms=a.size();
-    ARIADNE_ASSERT(d>=1);
-
-    Differential<X> zero = a.zero_element();
-    X x_one=zero.zero_coefficient(); x_one=1;
-    Differential<X> one=zero.create_constant(x_one);
-
-    // Use inefficient brute-force approach with lots of storage...
-    Array< Array< Differential<X> > > val(ms, Array< Differential<X> >(d+1u,zero));
-    for(SizeType j=0; j!=ms; ++j) {
-        val[j][0]=one;
-        val[j][1]=a[j];
-        for(SizeType k=2; k<=d; ++k) {
-            val[j][k]=val[j][k-1u]*a[j];
-        }
-    }
-
-    Differential<X> r(zero);
-    for(auto iter=x.begin(); iter!=x.end(); ++iter)
-    {
-        UniformConstReference<MultiIndex> j=iter->index();
-        UniformConstReference<X> c=iter->coefficient();
-        Differential<X> t=one;
-        for(SizeType k=0; k!=ms; ++k) {
-            t=t*val[k][j[k]];
-        }
-        t*=c;
-        r+=t;
-        //std::cerr<<" j="<<j<<" c="<<c<<" r="<<r<<std::endl;
-    }
-    return r;
-}
-
-
-template<class X>
-Differential<X> Differential<X>::_compose(const UnivariateDifferential<X>& x, const Differential<X>& y)
-{
-    SizeType as=y.argument_size();
-    DegreeType d=min(x.degree(),y.degree());
-
-    Differential<X> w=y;
-    if(w.begin()->index().degree()==0) { w.begin()->coefficient()=0; }
-    Differential<X> r(as,d,y.zero_coefficient());
-    r[MultiIndex(as)]=x[d];
-    for(SizeType n=1; n<=d; ++n) {
-        r=r*w;
-        r+=x[d-n];
-    }
-    return r;
-}
-
-template<class X>
-Differential<X> Differential<X>::_compose(const Differential<X>& x, const Vector<Differential<X>>& y)
-{
-    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
-    X zero(y.zero_element().zero_coefficient());
-    Vector<X> yv(y.size(),zero);
-    DegreeType deg=min(x.degree(),y.degree());
-    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
-    Differential<X> r=_evaluate(x,ync);
-    r.set_degree(deg);
-    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
-    return r;
-}
-
-
-template<class X>
-Vector<Differential<X>> Differential<X>::_compose(const Vector<Differential<X>>& x, const Vector<Differential<X>>& y)
-{
-    //std::cerr<<"compose(DV x, DV y)\n x="<<x<<"\n y="<<y<<std::endl;
-    X zero(y.zero_element().zero_coefficient());
-    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
-    Vector<X> yv(y.size(),zero);
-    DegreeType deg=min(x.degree(),y.degree());
-    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
-    Vector<Differential<X>> r(x.size(),y.argument_size(),deg,y.zero_coefficient());
-    for(SizeType i=0; i!=x.result_size(); ++i) { r[i]=_evaluate(x[i],y); r[i].set_degree(deg); }
-    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
-    return r;
-}
-
-
-template<class X>
-Differential<X> Differential<X>::_derivative(const Differential<X>& x, SizeType i)
-{
-    if(x.degree()==0) { return Differential<X>(x.argument_size(),0u,x.zero_coefficient()); }
-    Differential<X> r(x.argument_size(), x.degree()-1u,x.zero_coefficient());
-    MultiIndex a(x.argument_size());
-    for(typename Differential<X>::ConstIterator iter=x.begin(); iter!=x.end(); ++iter) {
-        a=iter->index();
-        Nat n=a[i];
-        if(n!=0) {
-            const X& xc=x[a];
-            --a[i];
-            X& rc=r[a];
-            rc=xc*n;
-        }
-    }
-    return r;
-}
-
-template<class X>
-Differential<X> Differential<X>::_antiderivative(const Differential<X>& x, SizeType i)
-{
-    Differential<X> r(x.argument_size(), x.degree()+1u,x.zero_coefficient());
-    MultiIndex a(x.argument_size());
-    MultiIndex ra=MultiIndex(x.argument_size());
-    MultiIndex ai=MultiIndex::unit(x.argument_size(),i);
-    for(typename Differential<X>::ConstIterator iter=x.begin(); iter!=x.end(); ++iter) {
-        a=iter->index();
-        const X& xc=x[a];
-        ++a[i];
-        Nat n=a[i];
-        X& rc=r[a];
-        rc=xc/n;
-    }
-    return r;
-}
-
-
-template<class X> OutputStream& write_expansion(OutputStream& os, Differential<X> const& dx) {
-    Expansion<MultiIndex,X> e=dx.expansion();
-    //e.graded_sort();
-    os << "{";
-    for(typename Expansion<MultiIndex,X>::ConstIterator iter=e.begin(); iter!=e.end(); ++iter) {
-        if(iter!=e.begin()) { os << ","; } os << " ";
-        for(SizeType i=0; i!=e.argument_size(); ++i) {
-            if(i!=0) { os << ","; }
-            os << SizeType(iter->index()[i]);
-        }
-        os << ":" << X(iter->coefficient());
-    }
-    return os << " }";
-}
-
-template<class X>
-OutputStream& Differential<X>::_write(OutputStream& os) const
-{
-    Differential<X> const& dx=*this;
-    os << "Differential(as="<<dx.argument_size()<<",deg="<<(uint)dx.degree()<<")";
-    write_expansion(os,dx);
-    return os;
-}
-
-
-
-
-
-template<class X> Vector<Differential<X>>::Vector(SizeType rs, SizeType as, DegreeType d, X const& z)
-    : _chars(as,d,z.precision()), _ary(rs,Differential<X>(as,d,z)) {
-}
-
-template<class X> Vector<Differential<X>>::Vector(SizeType rs, const Differential<X>& sd)
-    : _chars(sd), _ary(rs,sd) {
-}
-
-template<class X> Vector<Differential<X>>::Vector(InitializerList<Differential<X>> const& lst)
-    : _chars((assert(lst.size()>0),*lst.begin())), _ary(lst)
-{
-    ARIADNE_ASSERT(_ary.size()>0); _chars=DifferentialCharacteristics<X>(_ary[0]);
-}
-
-template<class X> Vector<Differential<X>>::Vector(Array<Differential<X>> ary)
-    : _chars((assert(ary.size()>0),*ary.begin())), _ary(std::move(ary))
-{
-    ARIADNE_ASSERT(_ary.size()>0); _chars=DifferentialCharacteristics<X>(_ary[0]);
-}
-
-
-
-template<class X> Vector<X> Vector<Differential<X>>::value() const {
-    Vector<Differential<X>> const& x=*this;
-    Vector<X> r(x.result_size(),x.zero_coefficient());
-    for(SizeType i=0; i!=r.size(); ++i) {
-        r[i]=x[i].value();
-    }
-    return r;
-}
-
-template<class X> Matrix<X> Vector<Differential<X>>::jacobian() const {
-    Vector<Differential<X>> const& x=*this;
-    Matrix<X> r(x.size(),x.argument_size(),x.zero_coefficient());
-    for(SizeType i=0; i!=x.size(); ++i) {
-        for(SizeType j=0; j!=x[0].argument_size(); ++j) {
-            r[i][j]=x[i].gradient(j);
-
-        }
-    }
-    return r;
-}
-
-template<class X> Void Vector<Differential<X>>::set_value(const Vector<X>& c) {
-    ARIADNE_ASSERT(this->result_size()==c.size());
-    for(SizeType i=0; i!=c.size(); ++i) {
-        (*this)[i].set_value(c[i]);
-    }
-}
-
-template<class X> Void Vector<Differential<X>>::set_degree(DegreeType deg) {
-    for(SizeType i=0; i!=this->size(); ++i) {
-        (*this)[i].set_degree(deg);
-    }
-}
-
-
-
-template<class X> Vector<Differential<X>> Vector<Differential<X>>::_compose(Vector<Differential<X>> const& x, Vector<Differential<X>> const& y) {
-    Vector<Differential<X>> r(x.size(),y.zero_element());
-    r.set_degree(min(x.degree(),y.degree()));
-    for(SizeType i=0; i!=r.size(); ++i) { r[i]=compose(x[i],y); }
-    return r;
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_derivative(const Vector<Differential<X>>& x, SizeType k) {
-    X z=x.zero_element().zero_coefficient();
-    Vector<Differential<X>> r(x.size(), Differential<X>(x.argument_size(),max(x.degree(),(DegreeType)1u)-1u,z));
-    for(SizeType i=0; i!=r.size(); ++i) { r[i]=derivative(x[i],k); }
-    return r;
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_antiderivative(const Vector<Differential<X>>& x, SizeType k) {
-    X z=x.zero_element().zero_coefficient();
-    Vector<Differential<X>> r(x.size(), Differential<X>(x.argument_size(),x.degree()+1u,z));
-    for(SizeType i=0; i!=r.size(); ++i) { r[i]=antiderivative(x[i],k); }
-    return r;
-}
-
-
-
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_lie_derivative(const Vector<Differential<X> >& df, const Vector<Differential<X> >& dg)
-{
-    X z=dg.zero_element().zero_coefficient();
-    Vector<Differential<X>> r(df.result_size(),df.argument_size(),df.degree()-1u,z);
-    Differential<X> t(df.argument_size(), df.degree()-1u,z);
-    MultiIndex a(df.argument_size()); X c=z;
-    for(SizeType i=0; i!=df.result_size(); ++i) {
-        Expansion<MultiIndex,X> const& dfi_expansion = df[i].expansion();
-        Expansion<MultiIndex,X>& t_expansion = t.expansion();
-        for(SizeType j=0; j!=df.argument_size(); ++j) {
-            for(typename Expansion<MultiIndex,X>::ConstIterator iter=dfi_expansion.begin(); iter!=dfi_expansion.end(); ++iter) {
-                if(iter->index()[j]!=0) {
-                    a=iter->index();
-                    c=iter->coefficient()*SizeType(a[j]);
-                    a[j]-=1;
-                    t_expansion.append(a,c);
-                }
-            }
-            r[i]+=t*dg[j];
-            t.clear();
-        }
-    }
-    return r;
-}
-
-
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_solve(const Vector<Differential<X> >& df, const Vector<X>& y0)
-{
-    ARIADNE_ASSERT(df.result_size()<=df.argument_size());
-    ARIADNE_ASSERT(df.result_size()==y0.size());
-
-    const SizeType m=df.result_size();
-    const SizeType n=df.argument_size();
-    const SizeType deg=df.degree();
-    const X z=df.zero_element().zero_coefficient();
-
-    const SizeType l=n-m;
-
-    Vector<Differential<X>> dx=Vector<Differential<X>>(l,l,deg,z);
-    for(SizeType i=0; i!=l; ++i) { dx[i]=Differential<X>::variable(l,deg,z,i); }
-
-    Matrix<X> Jf = df.jacobian();
-    //Matrix<X> J1f = project(Jf,range(0,m),range(0,n-m));
-    Matrix<X> J2f = project(Jf,range(0,m),range(n-m,n));
-    Matrix<X> invJ2f = inverse(J2f);
-
-    // Iterate Newton-like steps to find derivatives of solution
-    // TODO: This iteration repeats computation of lower-degree terms, so could be made more efficient
-    Vector<Differential<X>> dh=Differential<X>::constants(m,l,deg,y0);
-    for(SizeType i=0; i<=df.degree()+1u; ++i) {
-        dh = dh - invJ2f * compose(df,join(dx,dh));
-    }
-    return dh;
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0)
-{
-    ARIADNE_ASSERT(df.result_size()==df.argument_size());
-    ARIADNE_ASSERT(x0.size()==df.argument_size());
-    const SizeType n=df.result_size();
-    const SizeType deg=df.degree();
-    const X z=df.zero_element().zero_coefficient();
-    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u,deg+1u,x0[i],i);});
-    Vector<Differential<X>> dphi=Vector<Differential<X>>(n,n+1u,0u,z);
-    // TODO: This iteration repeats computation of lower-degree terms, so could be made more efficient
-    for(SizeType i=0; i<deg+1u; ++i) {
-        dphi=dx0+antiderivative(compose(df,dphi),n);
-    }
-    return dphi;
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0, X const& t0)
-{
-    ARIADNE_ASSERT(df.result_size()==x0.size());
-    ARIADNE_ASSERT(df.argument_size()==x0.size()+1u);
-    const SizeType n=x0.size(); // Number of state variables; also index of time variable
-    const SizeType deg=df.degree();
-
-    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u,deg+1u,x0[i],i);});
-    Vector<Differential<X>> dt0=Vector<Differential<X>>(1,Differential<X>::variable(n+1u,deg+1u,t0,n));
-
-    return _flow(df,dx0, dt0);
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0, Vector<X> const& a)
-{
-    ARIADNE_ASSERT(df.result_size()==x0.size());
-    ARIADNE_ASSERT(df.argument_size()==x0.size()+a.size());
-    const SizeType n=x0.size(); // Number of state variables; also index of time variable
-    const SizeType m=a.size();
-    const SizeType deg=df.degree();
-
-    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,x0[i],i);});
-    Vector<Differential<X>> da(m,n+1u+m,deg+1u,a.zero_element());
-    for (SizeType i=0; i!=m; ++i) { da[i]=Differential<X>::variable(n+1u+m,deg+1u,a[i],n+i); }
-
-    return _flow(df,dx0, da);
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0, X const& t0, Vector<X> const& a)
-{
-    ARIADNE_ASSERT(df.result_size()==x0.size());
-    ARIADNE_ASSERT(df.argument_size()==x0.size()+1u+a.size());
-    const SizeType n=x0.size(); // Number of state variables; also index of time variable
-    const SizeType m=a.size();
-    const SizeType deg=df.degree();
-
-    Vector<X> t0a=join(t0,a);
-    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,x0[i],i);});
-    Vector<Differential<X>> dt0a=Vector<Differential<X>>(m+1,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,t0a[i],n+i);});
-
-    return _flow(df,dx0, dt0a);
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_flow(const Vector<Differential<X>>& df, const Vector<Differential<X>>& dx0, const Vector<Differential<X>>& dt0a)
-{
-    ARIADNE_ASSERT(df.result_size()==dx0.result_size());
-    ARIADNE_ASSERT(df.argument_size()==dx0.result_size()+dt0a.result_size());
-    ARIADNE_ASSERT(dx0.argument_size()==dt0a.argument_size());
-    ARIADNE_ASSERT(dx0.result_size()<dx0.argument_size()); // dx0 has strictly more arguments since time is an input
-
-    const SizeType n=dx0.result_size(); const SizeType p=dx0.argument_size();
-    const SizeType deg=min(min(df.degree(),dt0a.degree())+1u,dx0.degree());
-    const X z=dx0.zero_element().zero_coefficient();
-
-    Vector<Differential<X>> dphi=Vector<Differential<X>>(n,p,0u,z);
-    for(SizeType i=0; i<deg; ++i) {
-        dphi=dx0+antiderivative(compose(df,join(dphi,dt0a)),n);
-    }
-    return dphi;
-}
-
-
-template<class X>
-OutputStream& Vector<Differential<X>>::_write(OutputStream& os) const
-{
-    Vector<Differential<X>> const& dx=*this;
-    os << "DifferentialVector(rs="<<dx.result_size()<<",as="<<dx.argument_size()<<",deg="<<(uint)dx.degree()<<")";
-    os << "[ "; for(SizeType i=0; i!=this->size(); ++i) { if(i!=0) { os << ", "; } write_expansion(os,dx[i]); } os << " ]";
-    return os;
-}
-
-
-} //namespace Ariadne
+/***************************************************************************
+ *            differential.tpl.hpp
+ *
+ *  Copyright  2008-20  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+#include <map>
+
+#include "utility/macros.hpp"
+#include "utility/array.hpp"
+#include "numeric/float.decl.hpp"
+#include "algebra/vector.hpp"
+#include "algebra/covector.hpp"
+#include "algebra/matrix.hpp"
+#include "algebra/multi_index.hpp"
+#include "algebra/series.hpp"
+#include "algebra/expansion.hpp"
+#include "algebra/expansion.inl.hpp"
+
+namespace Ariadne {
+
+template<class X> class Vector;
+template<class X> class Matrix;
+template<class X> class Series;
+
+template<class I, class X> class Expansion;
+template<class X> class Differential;
+
+
+inline DegreeType min(DegreeType d1, DegreeType d2) { return std::min(d1,d2); }
+inline DegreeType max(DegreeType d1, DegreeType d2) { return std::max(d1,d2); }
+
+//template<class X> Differential<X>::Differential() : _expansion(0), _degree(0) { }
+
+template<class X> Differential<X>::Differential(SizeType as, DegreeType deg, X const& z) : _expansion(as,z), _degree(deg) { }
+
+template<class X> Differential<X>::Differential(const Map<MultiIndex,X>& map, DegreeType deg)
+    : _expansion(0u,(assert(!map.empty()),nul(map.begin()->second)))
+{
+    ARIADNE_NOT_IMPLEMENTED;
+}
+
+template<class X>
+Differential<X>::Differential(SizeType as, DegreeType deg,
+                              InitializerList< Pair<InitializerList<DegreeType>,X> > lst)
+    : _expansion(Expansion<MultiIndex,X>(lst)), _degree(deg)
+{
+    this->cleanup();
+}
+
+
+template<class X> Differential<X>::Differential(const Expansion<MultiIndex,X>& e, DegreeType deg)
+    : _expansion(e.argument_size(),e.zero_coefficient()),_degree(deg)
+{
+    for(typename Expansion<MultiIndex,X>::ConstIterator iter=e.begin(); iter!=e.end(); ++iter) {
+        if(iter->index().degree()<=deg) { this->_expansion.append(iter->index(),iter->coefficient()); }
+    }
+    this->cleanup();
+}
+
+
+template<class X> Differential<X>& Differential<X>::operator=(const X& c) {
+    this->_expansion.clear();
+    this->_expansion.append(MultiIndex(this->argument_size()),c);
+    return *this;
+}
+
+
+template<class X> Differential<X> Differential<X>::constant(SizeType as, DegreeType deg, const X& c) {
+    Differential<X> r(as,deg,nul(c));
+    r._expansion.append(MultiIndex(as),c);
+    return r;
+}
+
+template<class X> Differential<X> Differential<X>::variable(SizeType as, DegreeType deg, const X& v, SizeType j) {
+    Differential<X> r(as,deg,nul(v));
+    MultiIndex a(as);
+    r._expansion.append(a,v);
+    a[j]=1;
+    X one(v); one=1;
+    r._expansion.append(a,one);
+    return r;
+}
+
+template<class X> Differential<X> Differential<X>::affine(SizeType as, DegreeType deg, const X& x, const Covector<X>& g) {
+    ARIADNE_ASSERT_MSG(as==g.size(), "g.size()="<<g.size()<<" must equal as="<<as);
+    Differential<X> r(as,deg,nul(x));
+    MultiIndex a(as);
+    r._expansion.append(a,x);
+    for (SizeType j=0; j!=as; ++j) {
+        a[j]=1;
+        r._expansion.append(a,g[j]);
+        a[j]=0;
+    }
+    return r;
+}
+
+template<class X> Differential<X> Differential<X>::affine(DegreeType deg, const X& x, const Covector<X>& g) {
+    return affine(g.size(),deg,x,g);
+}
+
+
+template<class X> Vector<Differential<X>> Differential<X>::constants(SizeType rs, SizeType as, DegreeType deg, const Vector<X>& c) {
+    ARIADNE_ASSERT(c.size()==rs);
+    return constants(as,deg,c);
+}
+
+template<class X> Vector<Differential<X>> Differential<X>::variables(SizeType rs, SizeType as, DegreeType deg, const Vector<X>& x) {
+    ARIADNE_ASSERT(x.size()==rs);  ARIADNE_ASSERT(as==x.size());
+    return variables(deg,x);
+}
+
+template<class X> Vector<Differential<X>> Differential<X>::constants(SizeType as, DegreeType deg, const Vector<X>& c) {
+    Vector<Differential<X>> r(c.size(),Differential(as,deg,c.zero_element()));
+    for(SizeType i=0; i!=c.size(); ++i) { r[i]=c[i]; }
+    return r;
+}
+
+template<class X> Vector<Differential<X>> Differential<X>::variables(DegreeType deg, const Vector<X>& v) {
+    X zero=v.zero_element();
+    Vector<Differential<X>> r(v.size(),Differential<X>(v.size(),deg,zero));
+    X& one=zero; one=1;
+    MultiIndex a(v.size());
+    for(SizeType i=0; i!=v.size(); ++i) {
+        r[i]._expansion.append(a,v[i]);
+        a[i]=1; r[i]._expansion.append(a,one); a[i]=0;
+    }
+    return r;
+}
+
+template<class X> Vector<Differential<X>> Differential<X>::affine(DegreeType deg, const Vector<X>& v, const Matrix<X>& G) {
+    X zero=v.zero_element();
+    Vector<Differential<X>> r(v.size(),Differential<X>(v.size(),deg,zero));
+    MultiIndex a(r.argument_size());
+    for(SizeType i=0; i!=r.size(); ++i) {
+        r[i]._expansion.append(a,v[i]);
+        for(SizeType j=0; j!=r.argument_size(); ++j) {
+            const X& gij=G[i][j];
+            if(decide(gij!=0)) { a[j]=1; r[i]._expansion.append(a,gij); a[j]=0; }
+        }
+    }
+    return r;
+}
+
+
+template<class X> Differential<X> Differential<X>::identity(DegreeType deg, const X& x) {
+    return variable(1u,deg,x,0u);
+}
+template<class X> Vector<Differential<X>> Differential<X>::identity(DegreeType deg, const Vector<X>& x) {
+    return variables(deg,x);
+}
+
+
+template<class X> EqualityType<X> Differential<X>::operator==(const Differential<X>& other) const {
+    Differential<X> const& self=*this;
+    if(self.argument_size()!=other.argument_size()) { return false; }
+    EqualityType<X> result=true;
+    IndexComparisonType less;
+    ConstIterator self_iter=self.begin(); ConstIterator other_iter=other.begin();
+    while(self_iter!=self.end() && other_iter!=other.end()) {
+        if(self_iter->index()==other_iter->index()) {
+            result = result && (self_iter->coefficient()==other_iter->coefficient());
+            ++self_iter; ++other_iter;
+        } else if (less(self_iter->index(), other_iter->index())) {
+            result = result && static_cast<EqualityType<X>>(self_iter->coefficient()==0);
+            ++self_iter;
+        } else { // (self_iter->index() > other_iter->index())
+            result = result && static_cast<EqualityType<X>>(other_iter->coefficient()==0);
+            ++other_iter;
+        }
+    }
+    while(self_iter!=self.end()) {
+        result = result && static_cast<EqualityType<X>>(self_iter->coefficient()==0);
+        ++self_iter;
+    }
+    while(other_iter!=other.end()) {
+        result = result && static_cast<EqualityType<X>>(other_iter->coefficient()==0);
+        ++other_iter;
+    }
+    return result;
+}
+
+template<class X> InequalityType<X> Differential<X>::operator!=(const Differential<X>& other) const {
+    return !(*this==other);
+}
+
+
+template<class X> SizeType Differential<X>::argument_size() const {
+    return this->_expansion.argument_size();
+}
+
+template<class X> DegreeType Differential<X>::degree() const {
+    return this->_degree;
+}
+
+template<class X> X Differential<X>::zero_coefficient() const {
+    return this->_expansion.zero_coefficient();
+}
+
+template<class X> const Expansion<MultiIndex,X>& Differential<X>::expansion() const {
+    return this->_expansion;
+}
+
+template<class X> Expansion<MultiIndex,X>& Differential<X>::expansion() {
+    return this->_expansion;
+}
+
+template<class X> const X& Differential<X>::value() const {
+    return this->operator[](MultiIndex(this->argument_size()));
+}
+
+template<class X> const X& Differential<X>::gradient(SizeType j) const {
+    return this->operator[](MultiIndex::unit(this->argument_size(),j));
+}
+
+template<class X> Covector<X> Differential<X>::gradient() const {
+    Covector<X> g(this->argument_size(),this->zero_coefficient());
+    for(SizeType j=0; j!=g.size(); ++j) { g[j]=this->gradient(j); }
+    return g;
+}
+
+template<class X> Matrix<X> Differential<X>::half_hessian() const {
+    ARIADNE_PRECONDITION(this->degree()>=2);
+    Matrix<X> H(this->argument_size(),this->argument_size(),nul(this->value()));
+    ConstIterator iter=this->begin();
+    while(iter!=this->end() && iter->index().degree()<=1) { ++iter; }
+    SizeType i=0; SizeType j=1;
+    while(iter!=this->end() && iter->index().degree()<=2) {
+        UniformConstReference<MultiIndex> a=iter->index();
+        UniformConstReference<X> c=iter->coefficient();
+        while(a[i]==0) { ++i; j=i+1u; }
+        if(a[i]==2) { H[i][i]=c; }
+        else { while(a[j]==0) { ++j; } H[i][j]=hlf(c); H[j][i]=hlf(c); }
+        ++iter;
+    }
+    return H;
+}
+
+template<class X> Matrix<X> Differential<X>::hessian() const {
+    return this->half_hessian()*2;
+}
+
+
+template<class X> X& Differential<X>::operator[](const SizeType& j) {
+    return this->operator[](MultiIndex::unit(this->argument_size(),j));
+}
+
+template<class X> const X& Differential<X>::operator[](const SizeType& j) const {
+    return this->operator[](MultiIndex::unit(this->argument_size(),j));
+}
+
+template<class X> X& Differential<X>::operator[](const MultiIndex& a) {
+    ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
+    return this->_expansion.at(a);
+}
+
+template<class X> const X& Differential<X>::operator[](const MultiIndex& a) const {
+    ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
+    ConstIterator iter=this->_expansion.find(a);
+    if(iter==this->_expansion.end()) { return this->_expansion.zero_coefficient(); }
+    else { return iter->coefficient(); }
+}
+
+
+template<class X> Void Differential<X>::set_degree(DegreeType deg) {
+    if(deg<this->_degree) {
+        for(auto iter = this->_expansion.begin(); iter!=this->_expansion.end(); ++iter) {
+            if (iter->index().degree() > deg) {
+                this->_expansion.resize(static_cast<SizeType>(iter-this->_expansion.begin()));
+                break;
+            }
+        }
+    }
+    this->_degree = deg;
+}
+
+template<class X> Void Differential<X>::set_value(const X& c) {
+    this->operator[](MultiIndex(this->argument_size()))=c;
+}
+
+template<class X> Void Differential<X>::set_gradient(SizeType j, const X& d) {
+    this->operator[](MultiIndex::unit(this->argument_size(),j))=d;
+}
+
+
+template<class X> typename Differential<X>::Iterator Differential<X>::begin() {
+    return this->_expansion.begin();
+}
+
+template<class X> typename Differential<X>::Iterator Differential<X>::end() {
+    return this->_expansion.end();
+}
+
+template<class X> typename Differential<X>::ConstIterator Differential<X>::begin() const {
+    return this->_expansion.begin();
+}
+
+template<class X> typename Differential<X>::ConstIterator Differential<X>::end() const {
+    return this->_expansion.end();
+}
+
+
+template<class X> Differential<X> Differential<X>::create() const {
+    return Differential<X>(this->argument_size(),this->degree(),this->zero_coefficient());
+}
+
+template<class X> Differential<X> Differential<X>::create_zero() const {
+    return Differential<X>(this->argument_size(),this->degree(),this->zero_coefficient());
+}
+
+template<class X> Differential<X> Differential<X>::create_constant(NumericType const& c) const {
+    return Differential<X>::constant(this->argument_size(),this->degree(),c);
+}
+
+template<class X> Differential<X> Differential<X>::create_constant(Int c) const {
+    X xc=this->value(); xc=c; return Differential<X>::constant(this->argument_size(),this->degree(),xc);
+}
+
+
+template<class X> Void Differential<X>::clear() {
+    this->_expansion.clear();
+}
+
+template<class X> Void Differential<X>::cleanup() {
+    this->_expansion.sort();
+    this->_expansion.combine_terms();
+    this->_expansion.remove_zeros();
+}
+
+template<class X> Void Differential<X>::check() const {
+    for(auto iter=this->begin(); iter!=this->end(); ++iter) {
+        ARIADNE_ASSERT_MSG(iter->index().degree()<=this->degree(), *this);
+        auto next = iter; ++next;
+        ARIADNE_ASSERT_MSG(graded_less(iter->index(),next->index()),"ErrorTag in ordering Differential "<<this->expansion());
+    }
+}
+
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Pos op, Differential<X> x)
+{
+    for(auto iter=x.begin(); iter!=x.end(); ++iter) {
+        UniformReference<X> xa=iter->coefficient();
+        xa=+xa;
+    }
+    return x;
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Neg op, Differential<X> x)
+{
+    for(auto iter=x.begin(); iter!=x.end(); ++iter) {
+        UniformReference<X> xa=iter->coefficient();
+        xa=-xa;
+    }
+    return x;
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Add op, Differential<X> x, const X& c)
+{
+    MultiIndex a(x.argument_size());
+    if(x.expansion().empty()) {
+        x.expansion().append(a,c);
+    } else if(x.begin()->index()!=a) {
+        x.expansion().prepend(a,c);
+    } else {
+        x.begin()->coefficient()+=c;
+    }
+    return x;
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Mul op, Differential<X> x, const X& c)
+{
+    if(decide(c==0)) {
+        x.clear();
+    } else {
+        for(auto iter=x.begin(); iter!=x.end(); ++iter) {
+            iter->coefficient()*=c;
+        }
+    }
+    return x;
+}
+
+
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Add op, const Differential<X>& x, const Differential<X>& y)
+{
+    ARIADNE_ASSERT_MSG(x.argument_size()==y.argument_size(),"x="<<x<<" y="<<y);
+    Differential<X> r(x.argument_size(),min(x.degree(),y.degree()),add(x.zero_coefficient(),y.zero_coefficient()));
+    typename Differential<X>::ConstIterator xiter=x.begin();
+    typename Differential<X>::ConstIterator yiter=y.begin();
+    // No need to check if maximum degree has been reached below,
+    // since if one Iterator is above the maximum degree, the other is at the end.
+    while(xiter!=x.end() && yiter!=y.end()) {
+        if(xiter->index()==yiter->index()) {
+            r.expansion().append(xiter->index(),xiter->coefficient()+yiter->coefficient());
+            ++xiter; ++yiter;
+        } else if(graded_less(xiter->index(),yiter->index())) {
+            r.expansion().append(xiter->index(),xiter->coefficient());
+            ++xiter;
+        } else {
+            r.expansion().append(yiter->index(),yiter->coefficient());
+            ++yiter;
+        }
+    }
+    while(xiter!=x.end() && xiter->index().degree()<=r.degree()) {
+        r.expansion().append(xiter->index(),xiter->coefficient());
+        ++xiter;
+    }
+    while(yiter!=y.end() && yiter->index().degree()<=r.degree()) {
+        r.expansion().append(yiter->index(),yiter->coefficient());
+        ++yiter;
+    }
+    //std::cerr<<"x="<<x<<" y="<<y<<" x+y="<<r<<"\n";
+    return r;
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Sub op, const Differential<X>& x, const Differential<X>& y)
+{
+    ARIADNE_ASSERT_MSG(x.argument_size()==y.argument_size(),"x="<<x<<" y="<<y);
+    Differential<X> r(x.argument_size(),min(x.degree(),y.degree()),sub(x.zero_coefficient(),y.zero_coefficient()));
+    typename Differential<X>::ConstIterator xiter=x.begin();
+    typename Differential<X>::ConstIterator yiter=y.begin();
+    // No need to check if maximum degree has been reached below,
+    // since if one Iterator is above the maximum degree, the other is at the end.
+    while(xiter!=x.end() && yiter!=y.end()) {
+        if(xiter->index()==yiter->index()) {
+            r.expansion().append(xiter->index(),xiter->coefficient()-yiter->coefficient());
+            ++xiter; ++yiter;
+        } else if(graded_less(xiter->index(),yiter->index())) {
+            r.expansion().append(xiter->index(),xiter->coefficient());
+            ++xiter;
+        } else {
+            r.expansion().append(yiter->index(),-yiter->coefficient());
+            ++yiter;
+        }
+    }
+    while(xiter!=x.end() && xiter->index().degree()<=r.degree()) {
+        r.expansion().append(xiter->index(),xiter->coefficient());
+        ++xiter;
+    }
+    while(yiter!=y.end() && yiter->index().degree()<=r.degree()) {
+        r.expansion().append(yiter->index(),-yiter->coefficient());
+        ++yiter;
+    }
+    //std::cerr<<"x="<<x<<" y="<<y<<" x-y="<<r<<"\n";
+    return r;
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Mul op, const Differential<X>& x, const Differential<X>& y)
+{
+    typedef typename Differential<X>::ConstIterator ConstIterator;
+    ARIADNE_ASSERT_MSG(x.argument_size()==y.argument_size(),"x="<<x<<" y="<<y);
+    Differential<X> r(x.argument_size(),min(x.degree(),y.degree()),mul(x.zero_coefficient(),y.zero_coefficient()));
+    MultiIndex a(x.argument_size());
+    X c(x.zero_coefficient()*y.zero_coefficient());
+    for(ConstIterator xiter=x.expansion().begin(); xiter!=x.expansion().end(); ++xiter) {
+        if(xiter->index().degree()>r.degree()) { break; }
+        for(ConstIterator yiter=y.expansion().begin(); yiter!=y.expansion().end(); ++yiter) {
+            if(xiter->index().degree()+yiter->index().degree()>r.degree()) { break; }
+            a=xiter->index()+yiter->index();
+            c=xiter->coefficient()*yiter->coefficient();
+            r.expansion().append(a,c);
+        }
+    }
+    r.cleanup();
+    //std::cerr<<"x="<<x<<" y="<<y<<" x*y="<<r<<"\n";
+    return r;
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Div op, const Differential<X>& x, const Differential<X>& y)
+{
+    return x * rec(y);
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Pow op, const Differential<X>& x, Int n)
+{
+    return generic_pow(x,n);
+}
+
+
+template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Min op, const Differential<X>& x1, const Differential<X>& x2) {
+    // FIXME: Maybe need different code for validated and approximate paradigms
+    ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
+    if(decide(x1.value()==x2.value())) {
+        ARIADNE_THROW(std::runtime_error,"min(Differential<X> x1, Differential<X> x2)","x1[0]==x2[0]");
+    }
+    return decide(x1.value()<x2.value()) ? x1 : x2;
+}
+
+
+template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Max op, const Differential<X>& x1,const Differential<X>& x2) {
+    ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
+    if(decide(x1.value()==x2.value())) {
+        ARIADNE_THROW(std::runtime_error,"max(Differential<X> x1, Differential<X> x2)","x1[0]==x2[0]");
+    }
+    return decide(x1.value()>x2.value()) ? x1 : x2;
+}
+
+template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Abs op, const Differential<X>& x) {
+    // FIXME: Maybe need different code for validated and approximate paradigms
+    if(decide(x.value()==0)) {
+        ARIADNE_THROW(std::runtime_error,"abs(Differential<X> x)","x[0]==0");
+    }
+    return decide(x.value()>0) ? pos(x) : neg(x);
+}
+
+
+
+
+template<class X> Differential<X> _evaluate(const Differential<X>& x, const Vector<Differential<X>>& a)
+{
+    ARIADNE_ASSERT_MSG(x.argument_size()==a.size(), "x="<<x<<" a="<<a);
+    DegreeType d=x.degree();
+    SizeType ms=a.size();
+    ARIADNE_ASSERT(d>=1);
+
+    Differential<X> zero = a.zero_element();
+    X x_one=zero.zero_coefficient(); x_one=1;
+    Differential<X> one=zero.create_constant(x_one);
+
+    // Use inefficient brute-force approach with lots of storage...
+    Array< Array< Differential<X> > > val(ms, Array< Differential<X> >(d+1u,zero));
+    for(SizeType j=0; j!=ms; ++j) {
+        val[j][0]=one;
+        val[j][1]=a[j];
+        for(SizeType k=2; k<=d; ++k) {
+            val[j][k]=val[j][k-1u]*a[j];
+        }
+    }
+
+    Differential<X> r(zero);
+    for(auto iter=x.begin(); iter!=x.end(); ++iter)
+    {
+        UniformConstReference<MultiIndex> j=iter->index();
+        UniformConstReference<X> c=iter->coefficient();
+        Differential<X> t=one;
+        for(SizeType k=0; k!=ms; ++k) {
+            t=t*val[k][j[k]];
+        }
+        t*=c;
+        r+=t;
+        //std::cerr<<" j="<<j<<" c="<<c<<" r="<<r<<std::endl;
+    }
+    return r;
+}
+
+
+template<class X>
+Differential<X> Differential<X>::_compose(const UnivariateDifferential<X>& x, const Differential<X>& y)
+{
+    SizeType as=y.argument_size();
+    DegreeType d=min(x.degree(),y.degree());
+
+    Differential<X> w=y;
+    if(w.begin()->index().degree()==0) { w.begin()->coefficient()=0; }
+    Differential<X> r(as,d,y.zero_coefficient());
+    r[MultiIndex(as)]=x[d];
+    for(SizeType n=1; n<=d; ++n) {
+        r=r*w;
+        r+=x[d-n];
+    }
+    return r;
+}
+
+template<class X>
+Differential<X> Differential<X>::_compose(const Differential<X>& x, const Vector<Differential<X>>& y)
+{
+    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
+    X zero(y.zero_element().zero_coefficient());
+    Vector<X> yv(y.size(),zero);
+    DegreeType deg=min(x.degree(),y.degree());
+    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
+    Differential<X> r=_evaluate(x,ync);
+    r.set_degree(deg);
+    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
+    return r;
+}
+
+
+template<class X>
+Vector<Differential<X>> Differential<X>::_compose(const Vector<Differential<X>>& x, const Vector<Differential<X>>& y)
+{
+    //std::cerr<<"compose(DV x, DV y)\n x="<<x<<"\n y="<<y<<std::endl;
+    X zero(y.zero_element().zero_coefficient());
+    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
+    Vector<X> yv(y.size(),zero);
+    DegreeType deg=min(x.degree(),y.degree());
+    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
+    Vector<Differential<X>> r(x.size(),y.argument_size(),deg,y.zero_coefficient());
+    for(SizeType i=0; i!=x.result_size(); ++i) { r[i]=_evaluate(x[i],y); r[i].set_degree(deg); }
+    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
+    return r;
+}
+
+
+template<class X>
+Differential<X> Differential<X>::_derivative(const Differential<X>& x, SizeType i)
+{
+    if(x.degree()==0) { return Differential<X>(x.argument_size(),0u,x.zero_coefficient()); }
+    Differential<X> r(x.argument_size(), x.degree()-1u,x.zero_coefficient());
+    MultiIndex a(x.argument_size());
+    for(typename Differential<X>::ConstIterator iter=x.begin(); iter!=x.end(); ++iter) {
+        a=iter->index();
+        Nat n=a[i];
+        if(n!=0) {
+            const X& xc=x[a];
+            --a[i];
+            X& rc=r[a];
+            rc=xc*n;
+        }
+    }
+    return r;
+}
+
+template<class X>
+Differential<X> Differential<X>::_antiderivative(const Differential<X>& x, SizeType i)
+{
+    Differential<X> r(x.argument_size(), x.degree()+1u,x.zero_coefficient());
+    MultiIndex a(x.argument_size());
+    MultiIndex ra=MultiIndex(x.argument_size());
+    MultiIndex ai=MultiIndex::unit(x.argument_size(),i);
+    for(typename Differential<X>::ConstIterator iter=x.begin(); iter!=x.end(); ++iter) {
+        a=iter->index();
+        const X& xc=x[a];
+        ++a[i];
+        Nat n=a[i];
+        X& rc=r[a];
+        rc=xc/n;
+    }
+    return r;
+}
+
+
+template<class X> OutputStream& write_expansion(OutputStream& os, Differential<X> const& dx) {
+    Expansion<MultiIndex,X> e=dx.expansion();
+    //e.graded_sort();
+    os << "{";
+    for(typename Expansion<MultiIndex,X>::ConstIterator iter=e.begin(); iter!=e.end(); ++iter) {
+        if(iter!=e.begin()) { os << ","; } os << " ";
+        for(SizeType i=0; i!=e.argument_size(); ++i) {
+            if(i!=0) { os << ","; }
+            os << SizeType(iter->index()[i]);
+        }
+        os << ":" << X(iter->coefficient());
+    }
+    return os << " }";
+}
+
+template<class X>
+OutputStream& Differential<X>::_write(OutputStream& os) const
+{
+    Differential<X> const& dx=*this;
+    os << "Differential(as="<<dx.argument_size()<<",deg="<<(uint)dx.degree()<<")";
+    write_expansion(os,dx);
+    return os;
+}
+
+
+
+
+
+template<class X> Vector<Differential<X>>::Vector(SizeType rs, SizeType as, DegreeType d, X const& z)
+    : _chars(as,d,z.precision()), _ary(rs,Differential<X>(as,d,z)) {
+}
+
+template<class X> Vector<Differential<X>>::Vector(SizeType rs, const Differential<X>& sd)
+    : _chars(sd), _ary(rs,sd) {
+}
+
+template<class X> Vector<Differential<X>>::Vector(InitializerList<Differential<X>> const& lst)
+    : _chars((assert(lst.size()>0),*lst.begin())), _ary(lst)
+{
+    ARIADNE_ASSERT(_ary.size()>0); _chars=DifferentialCharacteristics<X>(_ary[0]);
+}
+
+template<class X> Vector<Differential<X>>::Vector(Array<Differential<X>> ary)
+    : _chars((assert(ary.size()>0),*ary.begin())), _ary(std::move(ary))
+{
+    ARIADNE_ASSERT(_ary.size()>0); _chars=DifferentialCharacteristics<X>(_ary[0]);
+}
+
+
+
+template<class X> Vector<X> Vector<Differential<X>>::value() const {
+    Vector<Differential<X>> const& x=*this;
+    Vector<X> r(x.result_size(),x.zero_coefficient());
+    for(SizeType i=0; i!=r.size(); ++i) {
+        r[i]=x[i].value();
+    }
+    return r;
+}
+
+template<class X> Matrix<X> Vector<Differential<X>>::jacobian() const {
+    Vector<Differential<X>> const& x=*this;
+    Matrix<X> r(x.size(),x.argument_size(),x.zero_coefficient());
+    for(SizeType i=0; i!=x.size(); ++i) {
+        for(SizeType j=0; j!=x[0].argument_size(); ++j) {
+            r[i][j]=x[i].gradient(j);
+
+        }
+    }
+    return r;
+}
+
+template<class X> Void Vector<Differential<X>>::set_value(const Vector<X>& c) {
+    ARIADNE_ASSERT(this->result_size()==c.size());
+    for(SizeType i=0; i!=c.size(); ++i) {
+        (*this)[i].set_value(c[i]);
+    }
+}
+
+template<class X> Void Vector<Differential<X>>::set_degree(DegreeType deg) {
+    for(SizeType i=0; i!=this->size(); ++i) {
+        (*this)[i].set_degree(deg);
+    }
+}
+
+
+
+template<class X> Vector<Differential<X>> Vector<Differential<X>>::_compose(Vector<Differential<X>> const& x, Vector<Differential<X>> const& y) {
+    Vector<Differential<X>> r(x.size(),y.zero_element());
+    r.set_degree(min(x.degree(),y.degree()));
+    for(SizeType i=0; i!=r.size(); ++i) { r[i]=compose(x[i],y); }
+    return r;
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_derivative(const Vector<Differential<X>>& x, SizeType k) {
+    X z=x.zero_element().zero_coefficient();
+    Vector<Differential<X>> r(x.size(), Differential<X>(x.argument_size(),max(x.degree(),(DegreeType)1u)-1u,z));
+    for(SizeType i=0; i!=r.size(); ++i) { r[i]=derivative(x[i],k); }
+    return r;
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_antiderivative(const Vector<Differential<X>>& x, SizeType k) {
+    X z=x.zero_element().zero_coefficient();
+    Vector<Differential<X>> r(x.size(), Differential<X>(x.argument_size(),x.degree()+1u,z));
+    for(SizeType i=0; i!=r.size(); ++i) { r[i]=antiderivative(x[i],k); }
+    return r;
+}
+
+
+
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_lie_derivative(const Vector<Differential<X> >& df, const Vector<Differential<X> >& dg)
+{
+    X z=dg.zero_element().zero_coefficient();
+    Vector<Differential<X>> r(df.result_size(),df.argument_size(),df.degree()-1u,z);
+    Differential<X> t(df.argument_size(), df.degree()-1u,z);
+    MultiIndex a(df.argument_size()); X c=z;
+    for(SizeType i=0; i!=df.result_size(); ++i) {
+        Expansion<MultiIndex,X> const& dfi_expansion = df[i].expansion();
+        Expansion<MultiIndex,X>& t_expansion = t.expansion();
+        for(SizeType j=0; j!=df.argument_size(); ++j) {
+            for(typename Expansion<MultiIndex,X>::ConstIterator iter=dfi_expansion.begin(); iter!=dfi_expansion.end(); ++iter) {
+                if(iter->index()[j]!=0) {
+                    a=iter->index();
+                    c=iter->coefficient()*SizeType(a[j]);
+                    a[j]-=1;
+                    t_expansion.append(a,c);
+                }
+            }
+            r[i]+=t*dg[j];
+            t.clear();
+        }
+    }
+    return r;
+}
+
+
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_solve(const Vector<Differential<X> >& df, const Vector<X>& y0)
+{
+    ARIADNE_ASSERT(df.result_size()<=df.argument_size());
+    ARIADNE_ASSERT(df.result_size()==y0.size());
+
+    const SizeType m=df.result_size();
+    const SizeType n=df.argument_size();
+    const SizeType deg=df.degree();
+    const X z=df.zero_element().zero_coefficient();
+
+    const SizeType l=n-m;
+
+    Vector<Differential<X>> dx=Vector<Differential<X>>(l,l,deg,z);
+    for(SizeType i=0; i!=l; ++i) { dx[i]=Differential<X>::variable(l,deg,z,i); }
+
+    Matrix<X> Jf = df.jacobian();
+    //Matrix<X> J1f = project(Jf,range(0,m),range(0,n-m));
+    Matrix<X> J2f = project(Jf,range(0,m),range(n-m,n));
+    Matrix<X> invJ2f = inverse(J2f);
+
+    // Iterate Newton-like steps to find derivatives of solution
+    // TODO: This iteration repeats computation of lower-degree terms, so could be made more efficient
+    Vector<Differential<X>> dh=Differential<X>::constants(m,l,deg,y0);
+    for(SizeType i=0; i<=df.degree()+1u; ++i) {
+        dh = dh - invJ2f * compose(df,join(dx,dh));
+    }
+    return dh;
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0)
+{
+    ARIADNE_ASSERT(df.result_size()==df.argument_size());
+    ARIADNE_ASSERT(x0.size()==df.argument_size());
+    const SizeType n=df.result_size();
+    const SizeType deg=df.degree();
+    const X z=df.zero_element().zero_coefficient();
+    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u,deg+1u,x0[i],i);});
+    Vector<Differential<X>> dphi=Vector<Differential<X>>(n,n+1u,0u,z);
+    // TODO: This iteration repeats computation of lower-degree terms, so could be made more efficient
+    for(SizeType i=0; i<deg+1u; ++i) {
+        dphi=dx0+antiderivative(compose(df,dphi),n);
+    }
+    return dphi;
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0, X const& t0)
+{
+    ARIADNE_ASSERT(df.result_size()==x0.size());
+    ARIADNE_ASSERT(df.argument_size()==x0.size()+1u);
+    const SizeType n=x0.size(); // Number of state variables; also index of time variable
+    const SizeType deg=df.degree();
+
+    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u,deg+1u,x0[i],i);});
+    Vector<Differential<X>> dt0=Vector<Differential<X>>(1,Differential<X>::variable(n+1u,deg+1u,t0,n));
+
+    return _flow(df,dx0, dt0);
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0, Vector<X> const& a)
+{
+    ARIADNE_ASSERT(df.result_size()==x0.size());
+    ARIADNE_ASSERT(df.argument_size()==x0.size()+a.size());
+    const SizeType n=x0.size(); // Number of state variables; also index of time variable
+    const SizeType m=a.size();
+    const SizeType deg=df.degree();
+
+    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,x0[i],i);});
+    Vector<Differential<X>> da(m,n+1u+m,deg+1u,a.zero_element());
+    for (SizeType i=0; i!=m; ++i) { da[i]=Differential<X>::variable(n+1u+m,deg+1u,a[i],n+i); }
+
+    return _flow(df,dx0, da);
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0, X const& t0, Vector<X> const& a)
+{
+    ARIADNE_ASSERT(df.result_size()==x0.size());
+    ARIADNE_ASSERT(df.argument_size()==x0.size()+1u+a.size());
+    const SizeType n=x0.size(); // Number of state variables; also index of time variable
+    const SizeType m=a.size();
+    const SizeType deg=df.degree();
+
+    Vector<X> t0a=join(t0,a);
+    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,x0[i],i);});
+    Vector<Differential<X>> dt0a=Vector<Differential<X>>(m+1,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,t0a[i],n+i);});
+
+    return _flow(df,dx0, dt0a);
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_flow(const Vector<Differential<X>>& df, const Vector<Differential<X>>& dx0, const Vector<Differential<X>>& dt0a)
+{
+    ARIADNE_ASSERT(df.result_size()==dx0.result_size());
+    ARIADNE_ASSERT(df.argument_size()==dx0.result_size()+dt0a.result_size());
+    ARIADNE_ASSERT(dx0.argument_size()==dt0a.argument_size());
+    ARIADNE_ASSERT(dx0.result_size()<dx0.argument_size()); // dx0 has strictly more arguments since time is an input
+
+    const SizeType n=dx0.result_size(); const SizeType p=dx0.argument_size();
+    const SizeType deg=min(min(df.degree(),dt0a.degree())+1u,dx0.degree());
+    const X z=dx0.zero_element().zero_coefficient();
+
+    Vector<Differential<X>> dphi=Vector<Differential<X>>(n,p,0u,z);
+    for(SizeType i=0; i<deg; ++i) {
+        dphi=dx0+antiderivative(compose(df,join(dphi,dt0a)),n);
+    }
+    return dphi;
+}
+
+
+template<class X>
+OutputStream& Vector<Differential<X>>::_write(OutputStream& os) const
+{
+    Vector<Differential<X>> const& dx=*this;
+    os << "DifferentialVector(rs="<<dx.result_size()<<",as="<<dx.argument_size()<<",deg="<<(uint)dx.degree()<<")";
+    os << "[ "; for(SizeType i=0; i!=this->size(); ++i) { if(i!=0) { os << ", "; } write_expansion(os,dx[i]); } os << " ]";
+    return os;
+}
+
+
+} //namespace Ariadne
-- 
2.43.0


From acfed84ae5037043432c5a9f6f68bde285375bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:25 +0000
Subject: [PATCH 21/63] fix: derivatives of an autonomous flow with respect to
 parameters

---
 source/algebra/differential.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 6b6824b..a8c929b 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -876,7 +876,7 @@ Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> con
 
     Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,x0[i],i);});
     Vector<Differential<X>> da(m,n+1u+m,deg+1u,a.zero_element());
-    for (SizeType i=0; i!=m; ++i) { da[i]=Differential<X>::variable(n+1u+m,deg+1u,a[i],n+i); }
+    for (SizeType i=0; i!=m; ++i) { da[i]=Differential<X>::variable(n+1u+m,deg+1u,a[i],n+1u+i); }
 
     return _flow(df,dx0, da);
 }
-- 
2.43.0


From 5faff4c055ee2881c7c09600105144dc6e2290fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:25 +0000
Subject: [PATCH 22/63] fix: setting the degree of a vector of differentials

---
 source/algebra/differential.tpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index a8c929b..5cb78e4 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -739,6 +739,7 @@ template<class X> Void Vector<Differential<X>>::set_degree(DegreeType deg) {
     for(SizeType i=0; i!=this->size(); ++i) {
         (*this)[i].set_degree(deg);
     }
+    this->_chars=DifferentialCharacteristics<X>(this->argument_size(),deg,this->zero_coefficient());
 }
 
 
-- 
2.43.0


From ac200355bad886c2b3fd3e1e1784b598d9bf9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:11 +0000
Subject: [PATCH 23/63] fix: choose pivots of the triangular decomposition in
 the reduced matrix

---
 source/algebra/matrix.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/algebra/matrix.tpl.hpp b/source/algebra/matrix.tpl.hpp
index 6d2aa09..6304834 100644
--- a/source/algebra/matrix.tpl.hpp
+++ b/source/algebra/matrix.tpl.hpp
@@ -595,9 +595,9 @@ triangular_decomposition(const Matrix<X>& A)
         SizeType iamax=k;
         X amax=A.zero_element();
         for(SizeType i=k; i!=m; ++i) {
-            if(decide(abs(A[i][k])>amax)) {
+            if(decide(abs(U[i][k])>amax)) {
                 iamax=i;
-                amax=abs(A[i][k]);
+                amax=abs(U[i][k]);
             }
         }
 
-- 
2.43.0


From 82740c43c8cccaa4f15aa0fe14975f605b1d1d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 24/63] fix: keep MultiIndex::operator++ within its array

---
 source/algebra/multi_index.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/algebra/multi_index.cpp b/source/algebra/multi_index.cpp
index ab139c9..7c8e721 100644
--- a/source/algebra/multi_index.cpp
+++ b/source/algebra/multi_index.cpp
@@ -30,12 +30,12 @@ namespace Ariadne {
 
 MultiIndex& MultiIndex::operator++() {
     assert(_n>0);
-    if(_n==1) { ++_p[0]; ++_p[_n]; return *this; }
+    if(_n==1) { ++_p[0]; return *this; }
     if(_p[_n-2]!=0) { --_p[_n-2]; ++_p[_n-1]; return *this; }
     else {
         IndexType li=_p[_n-1]; _p[_n-1]=0;
         for(SizeType k=_n-1; k!=0; --k) { if(_p[k-1]!=0) { --_p[k-1]; _p[k]=li+1u; return *this; } }
-        _p[0]=li+1u; ++_p[_n];
+        _p[0]=li+1u;
     }
     return *this;
 }
-- 
2.43.0


From 286bf2371c69a6e25d43f2d4d52cf797adc4188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 25/63] fix: leave a moved-from MultiIndexList empty

---
 source/algebra/multi_index.inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/algebra/multi_index.inl.hpp b/source/algebra/multi_index.inl.hpp
index 39bc572..00543d0 100644
--- a/source/algebra/multi_index.inl.hpp
+++ b/source/algebra/multi_index.inl.hpp
@@ -156,7 +156,7 @@ inline MultiIndexConstPointer MultiIndexListConstIterator::operator->() const {
 inline MultiIndexList::MultiIndexList(MultiIndexList&& lst)
     : _capacity(lst._capacity), _size(lst._size), _argument_size(lst._argument_size), _indices(lst._indices)
 {
-    lst._indices=nullptr;
+    lst._indices=nullptr; lst._size=0u; lst._capacity=0u;
 }
 
 inline MultiIndexList& MultiIndexList::operator=(MultiIndexList&& lst) {
@@ -168,7 +168,7 @@ inline MultiIndexList& MultiIndexList::operator=(MultiIndexList&& lst) {
         _argument_size=lst._argument_size;
 
         _indices=lst._indices;
-        lst._indices = nullptr;
+        lst._indices = nullptr; lst._size = 0u; lst._capacity = 0u;
     }
     return *this;
 }
-- 
2.43.0


From dee62b2aa78debfaae413f20a4c135d4937c3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 26/63] fix: return the position following the erased index

---
 source/algebra/multi_index.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/multi_index.cpp b/source/algebra/multi_index.cpp
index 7c8e721..56920b2 100644
--- a/source/algebra/multi_index.cpp
+++ b/source/algebra/multi_index.cpp
@@ -121,7 +121,7 @@ MultiIndexList::Iterator MultiIndexList::erase(Iterator pos) {
         ++pos; ++next;
     }
     --_size;
-    return pos;
+    return curr;
 }
 
 Void MultiIndexList::clear() {
-- 
2.43.0


From d4e64a839ccc545f2092c33eb2aaafadf2255b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 27/63] fix: multiply by the lowest power in univariate Horner
 evaluation

---
 source/algebra/evaluate.tpl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/algebra/evaluate.tpl.hpp b/source/algebra/evaluate.tpl.hpp
index 4686259..4547174 100644
--- a/source/algebra/evaluate.tpl.hpp
+++ b/source/algebra/evaluate.tpl.hpp
@@ -144,6 +144,9 @@ template<class X, class Y> ArithmeticType<X,Y> horner_evaluate(const Expansion<U
         a=na;
         ++iter;
     }
+    for(SizeType ii=0; ii!=a; ++ii) {
+        r=r*x;
+    }
     return r;
 }
 
-- 
2.43.0


From 62cf18b8ed16be2a20ce55f5b1f2a45d98322176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:43 +0000
Subject: [PATCH 28/63] fix: keep coefficients which may be nonzero when
 converting an expansion

---
 source/algebra/expansion.inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/expansion.inl.hpp b/source/algebra/expansion.inl.hpp
index 15f77d4..8ecebeb 100644
--- a/source/algebra/expansion.inl.hpp
+++ b/source/algebra/expansion.inl.hpp
@@ -262,7 +262,7 @@ Void Expansion<I,X>::_fill(Expansion<I,Y> const& other, PRS... prs)
     {
         a=iter->index();
         x=X(iter->coefficient(),prs...);
-        if(decide(x!=0)) { this->append(a,x); }
+        if(!decide(x==0)) { this->append(a,x); }
     }
 }
 
-- 
2.43.0


From eb2df02ce23b7bd1d373d7fbc3b4e57071621a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:43 +0000
Subject: [PATCH 29/63] fix: keep gradients which may be nonzero in an affine
 differential

---
 source/algebra/differential.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 5cb78e4..0045012 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -154,7 +154,7 @@ template<class X> Vector<Differential<X>> Differential<X>::affine(DegreeType deg
         r[i]._expansion.append(a,v[i]);
         for(SizeType j=0; j!=r.argument_size(); ++j) {
             const X& gij=G[i][j];
-            if(decide(gij!=0)) { a[j]=1; r[i]._expansion.append(a,gij); a[j]=0; }
+            if(!decide(gij==0)) { a[j]=1; r[i]._expansion.append(a,gij); a[j]=0; }
         }
     }
     return r;
-- 
2.43.0


From c4fe2d37d367b5dc245a829c166cf9b799f1dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:43 +0000
Subject: [PATCH 30/63] fix: keep coefficients which may be nonzero when
 truncating a polynomial

---
 source/function/polynomial.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index 859e248..d6c1f26 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -164,7 +164,7 @@ template<class I, class X>
 Polynomial<I,X>& Polynomial<I,X>::truncate(DegreeType d) {
     Polynomial<I,X> r(this->argument_size(),this->zero_coefficient());
     for(typename Polynomial<I,X>::ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
-        if(degree_of(iter->index())<=d && decide(iter->coefficient()!=0)) {
+        if(degree_of(iter->index())<=d && !decide(iter->coefficient()==0)) {
             r._append(iter->index(),iter->coefficient());
         }
     }
-- 
2.43.0


From 8d6adac1374584a06848b7d3740bb33df9ab1fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:09 +0000
Subject: [PATCH 31/63] fix: drop constant terms when differentiating a
 polynomial

---
 source/function/polynomial.tpl.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index d6c1f26..4631059 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -140,11 +140,13 @@ template<class I, class X> Void Polynomial<I,X>::clear() { this->_expansion.clea
 template<class I, class X>
 Polynomial<I,X>&
 Polynomial<I,X>::differentiate(VariableIndexType j) {
-    for(typename Polynomial<I,X>::Iterator iter=this->begin(); iter!=this->end(); ++iter) {
-        IndexReference a=iter->index();
-        CoefficientReference c=iter->coefficient();
-        c*=static_cast<Nat>(a[j]); if(a[j]!=0u) { --a[j]; }
+    Polynomial<I,X> r(this->argument_size(),this->zero_coefficient());
+    for(typename Polynomial<I,X>::ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
+        IndexType a=iter->index();
+        X c=iter->coefficient();
+        if(a[j]!=0u) { c*=static_cast<Nat>(a[j]); --a[j]; r._append(a,c); }
     }
+    this->_expansion.swap(r._expansion);
     return *this;
 }
 
-- 
2.43.0


From a2e36ae5feef5849e8e5817b121dd345a36c9bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:09 +0000
Subject: [PATCH 32/63] fix: do not write past the powers when partially
 evaluating a constant polynomial

---
 source/function/polynomial.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index 4631059..bcc5674 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -408,7 +408,7 @@ Polynomial<I,X>::_partial_evaluate(const Polynomial<I,X>& x, SizeType k, const X
             Array< Polynomial<I,X> > p(x.degree()+1u,Polynomial<I,X>(x.argument_size()-1u,x.zero_coefficient()));
 
             Array<X> cpowers(x.degree()+1u,x.zero_coefficient());
-            cpowers[0]=1; cpowers[1]=c;
+            cpowers[0]=1; if(x.degree()>=1) { cpowers[1]=c; }
             if(x.degree()>=2) { cpowers[2]=sqr(c); }
             for(DegreeType j=3; j<=x.degree(); ++j) {
                 cpowers[j]=cpowers[j-2u]*cpowers[2];
-- 
2.43.0


From 3b1f35ba68e47beb4a42867b302bd269b1d81cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:09 +0000
Subject: [PATCH 33/63] fix: degree and constant assignment of univariate
 polynomials

---
 source/function/polynomial.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index bcc5674..f1618b4 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -80,7 +80,7 @@ template<class I, class X> auto Polynomial<I,X>::variables(ArgumentSizeType as,
 template<class I, class X> Polynomial<I,X>& Polynomial<I,X>::operator=(const X& x) {
     this->_expansion.clear();
     if constexpr (Same<I,MultiIndex>) { this->_expansion.append(MultiIndex(this->argument_size()),x); }
-    if constexpr (Same<I,DegreeType>) { this->_expansion.append(DegreeType(0u),x); }
+    if constexpr (Same<I,UniIndex>) { this->_expansion.append(UniIndex(0u),x); }
     return *this;
 }
 
@@ -92,7 +92,7 @@ template<class I, class X> SizeType Polynomial<I,X>::number_of_terms() const { r
 template<class I, class X> DegreeType Polynomial<I,X>::degree() const {
     DegreeType deg=0u; for(auto iter=this->_expansion.begin(); iter!=this->_expansion.end(); ++iter) {
         if constexpr (Same<I,MultiIndex>) { deg=std::max(deg,iter->index().degree()); }
-        else if constexpr (Same<I,DegreeType>) { deg=std::max(deg,iter->index()); }
+        else if constexpr (Same<I,UniIndex>) { deg=std::max(deg,DegreeType(iter->index())); }
     }
     return deg;
 }
-- 
2.43.0


From 0f420d3be3b4f166d988f3285342be1abce7bd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:37 +0000
Subject: [PATCH 34/63] fix: add scalars to the constant term of univariate
 polynomials

---
 source/function/polynomial.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index f1618b4..2b6a398 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -234,12 +234,12 @@ template<class I, class X> Polynomial<I,X> AlgebraOperations<Polynomial<I,X>>::a
 
 
 template<class I, class X> Polynomial<I,X> AlgebraOperations<Polynomial<I,X>>::apply(Add, Polynomial<I,X> p, const X& c) {
-    p[IndexType(p.argument_size())]+=c;
+    p[zero_index(p.argument_size())]+=c;
     return p;
 }
 
 template<class I, class X> Polynomial<I,X>& AlgebraOperations<Polynomial<I,X>>::iapply(Add, Polynomial<I,X>& p, const X& c) {
-    p[IndexType(p.argument_size())]+=c;
+    p[zero_index(p.argument_size())]+=c;
     return p;
 }
 
-- 
2.43.0


From 82f95aafb75cb813faf6f7b321e2ab15bd2e3356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:38 +0000
Subject: [PATCH 35/63] fix: do not destroy a binary tree assigned from itself
 or one of its subtrees

---
 source/geometry/binary_tree.hpp | 915 ++++++++++++++++----------------
 1 file changed, 454 insertions(+), 461 deletions(-)

diff --git a/source/geometry/binary_tree.hpp b/source/geometry/binary_tree.hpp
index 0e4deb4..aba2773 100644
--- a/source/geometry/binary_tree.hpp
+++ b/source/geometry/binary_tree.hpp
@@ -1,461 +1,454 @@
-/***************************************************************************
- *            geometry/binary_tree.hpp
- *
- *  Copyright  2008-20  Ivan S. Zapreev, Pieter Collins
- *
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-#ifndef ARIADNE_BINARY_TREE_HPP
-#define ARIADNE_BINARY_TREE_HPP
-
-
-#include <iostream>
-#include <iomanip>
-
-#include "function/functional.hpp"
-#include "utility/macros.hpp"
-#include "utility/exceptions.hpp"
-#include "utility/stlio.hpp"
-#include "utility/binary_word.hpp"
-#include "geometry/list_set.hpp"
-
-
-namespace Ariadne {
-
-//! \brief The binary-tree node operation is not allowed on a non-leaf node.
-class NotALeafNodeException : public std::logic_error {
-  public:
-    NotALeafNodeException(const StringType& str) : std::logic_error(str) { }
-};
-
-//! \brief The binary-tree node operation is not allowed on a leaf node.
-class IsALeafNodeException : public std::logic_error {
-  public:
-    IsALeafNodeException(const StringType& str) : std::logic_error(str) { }
-};
-
-typedef std::vector<Bool> BooleanArray;
-
-//***************************************BinaryTreeNode************************************/
-
-//! \brief The binary tree node.
-//!
-//! This node is to be used in a binary tree designed for subdividing the state
-//! space into enabled and disabled cells. This is required for representing
-//! subsets of the state space.
-//!
-//! \b Storage: We only store pointers to the left and right subtrees and the ValidatedKleenean
-//! value indicating whether this cell is enabled/disabled or we do not know.
-class BinaryTreeNode {
-  protected:
-    //! \brief Defines whether the given node of the tree is on/off or we do not know*/
-    ValidatedKleenean _isEnabled;
-
-    /*! \brief The left and right subnodes of the tree. Note that,
-     * \a pLeftNode == \a nullptr iff \a pRightNode == \a nullptr. The latter
-     * is allowed iff \a _isEnabled == \a TRUE or \a _isEnabled == \a FALSE,
-     * i.e. the node can be a leaf.
-     */
-    BinaryTreeNode* _pLeftNode;
-    BinaryTreeNode* _pRightNode;
-
-    //! \brief This method splits the enabled subtrees of the tree rooted to
-    //! \a pCurrentNode in such a way that the tree depth becomes \a depth.
-    //! If the initial tree depth is greater than \a depth then nothing is done.
-    Void mince_node(BinaryTreeNode* pCurrentNode, const Nat depth);
-
-    //! \brief This method recombined the sub tree nodes rooted to \a pCurrentNode.
-    //! Note that, the two leaf nodes with the same parent are removed if they have
-    //! the same value of isEnabled fields.
-    Void recombine_node(BinaryTreeNode * pCurrentNode);
-
-    //! \brief This method is used for recursive restoration of the binary tree from
-    //! the used data, i.e. \a theTree and \a theEnabledCells. It is used in the
-    //! constructor \a BinaryTreeNode( const BooleanArray& , const BooleanArray& )
-    Void restore_node( BinaryTreeNode * pCurrentNode, Nat & arr_index, Nat & leaf_counter,
-                       const BooleanArray& theTree, const BooleanArray& theEnabledCells);
-
-    //! \brief This method is used in constructors for the node initialization
-    Void init( ValidatedKleenean isEnabled, BinaryTreeNode* pLeftNode, BinaryTreeNode* pRightNode );
-
-  public:
-    //!@{
-    //! \name Constructors
-
-    //! \brief Construct a tree node.
-      explicit BinaryTreeNode(const ValidatedKleenean _isEnabled = false );
-
-    //! \brief The copy constructor.
-    //! The the node and all it's sub nodes are copied.
-    explicit BinaryTreeNode(const BinaryTreeNode& theTreeNode);
-
-    //! \brief Constructs a binary tree from the boolean arrays. \a theTree defines
-    //! the tree structure, \a theEnabledCells defines the tree nodes.
-    //! IVAN S. ZAPREEV:
-    //! WARNING: We assume that every node has either no children or both of them!
-    //! NOTE: The dinary data of the tree is organized in the following way:
-    //!          1      The \a theTree contains Depth first search lay out of the tree,
-    //!         / \     where 1 stands for the non-leaf node and 0 for a leaf node, we
-    //!        /   \    always visit the left su-node first, e.g. the tree on the left
-    //!       2     5   is encodes the Array:     [1, 1, 0, 0, 0]
-    //!      / \        where the corresponding    ^  ^  ^  ^  ^
-    //!     /   \       tree nodes are:            1  2  3  4  5
-    //!    3     4      \a theEnabledCells contains true/false values for the leaf nodes
-    //! of the tree. Their order is the same as in \a theTree, e.g. here it is: 3,4,5
-    explicit BinaryTreeNode( const BooleanArray& theTree, const BooleanArray& theEnabledCells );
-
-    //!@}
-
-    ~BinaryTreeNode();
-
-    //!@{
-    //! \name Properties
-
-    //! \brief Returns true if the node is marked as enabled, otherwise false
-    Bool is_enabled() const;
-
-    //! \brief Returns true if some of the leaf nodes in the tree rooted to this node are enabled, otherwise false
-    Bool has_enabled() const;
-
-    //! \brief Returns true if all leaf nodes in the tree rooted to this node are enabled, otherwise false
-    Bool all_enabled() const;
-
-    //! \brief This method returns true if the given path defines a node in the tree that is either enabled
-    //! or is in a "virtual" subtree of some enabled node (note that enabled nodes can only be leafs).
-    //! Note that: \a path is treated as if it is rooted to this node, we assume that the path starts
-    //! from position \a position of \a path. The parameter \a position is used for recursive calls only.
-    Bool is_enabled( const BinaryWord & path, const Nat position = 0) const;
-
-    //! \brief Returns true if the node is marked as disabled, otherwise false
-    Bool is_disabled() const;
-
-    //! \brief Returns true if the node is a leaf (pLeftNode == nullptr && pRightNode == nullptr) otherwise false
-    Bool is_leaf() const;
-
-    //! \brief Return the left or right sub-node
-    BinaryTreeNode * child_node(Bool left_or_right) const;
-
-    //! \brief Return the left sub-node
-    BinaryTreeNode * left_node() const;
-
-    //! \brief Return the right sub-node
-    BinaryTreeNode * right_node() const;
-
-    //! \brief Returns the depth of the sub-tree rooted to the given node, i.e. the depth of it's deepest node
-    Nat depth() const;
-
-    //! \brief Allows to compare to binaty tree nodes
-    Bool operator==(const BinaryTreeNode & otherNode ) const;
-
-    //! \brief Marks the node as enabled or disabled.
-    Void set(Bool all_enabled_or_all_disabled);
-
-    static Bool is_equal_nodes( const BinaryTreeNode * pFirstNode, const BinaryTreeNode * pSecondNode );
-
-    //!@}
-
-    //!@{
-    //! \name Leaf Operations
-
-    //! \brief This method makes the node to become a leaf node with the enabled value : \a is_enabled
-    //! NOTE: the leat and the right sub-trees (are deallocated.
-    //! WARNING: this method MUST NOT be called on a non-leaf node!!!
-    Void make_leaf( ValidatedKleenean is_enabled );
-
-    //! \brief Marks the leaf node as enabled, otherwise they through \a NotALeafNodeEsception
-    Void set_enabled();
-
-    //! \brief Marks the leaf node as disabled, otherwise they through \a NotALeafNodeEsception
-    Void set_disabled();
-
-    //! \brief Marks the node as neither enabled nor disabled, is only applicable to non-leaf nodes.
-    //! When applied to a leaf node, throws IsALeafNodeException.
-    Void set_unknown();
-
-    //! \brief Splits the leaf node, i.e. adds two subnodes with the _isEnabled field value inherited from the parent node.
-    //! The parent's _isEnabled is set to intermediate, because the subsequent operation on the subtree might enable/disable
-    //! subnodes and we do not want to keep track of these changes. If the node is not a leaf then nothing is done.
-    Void split();
-
-    //! \brief This method splits the enabled subtrees of the tree rooted to
-    //! this node in such a way that the tree depth becomes \a depth.
-    //! If the initial tree depth is greater than \a depth then nothing is done.
-    Void mince(const Nat depth);
-
-    //!@}
-
-    //!@{
-    //! \name
-
-    //! \brief Allows to assign one binary tree node to the other, this is done by copying
-    //! the nodes value and the sub-trees. The sub-trees of this node are deallocated.
-    BinaryTreeNode& operator=(const BinaryTreeNode & otherNode );
-
-    //! \brief Copy all the data (including the sub-nodes) from the node pointed by \a pOtherNode into the given node.
-    //! Note that here we will create copies of the sub nodes, and NOT just copy pointers to them!
-    Void copy_from( const BinaryTreeNode * pOtherNode );
-
-    //! \brief This method recombined the sub tree nodes. Note that, the two leaf nodes with
-    //! the same parent are removed if they have the same value of isEnabled fields.
-    Void recombine();
-
-    //! \brief Stores the binary tree in a form of two arrays, their structure is the same as needed for
-    //! the BinaryTreeNode( const BooleanArray& , const BooleanArray&  ) constructor
-    Void tree_to_binary_words( BinaryWord & tree, BinaryWord & leaves ) const;
-
-    //! \brief Stores the binary tree node as a string*/
-    String node_to_string() const;
-
-    //! \brief Finds(creates) the leaf node defined by the \a path and marks it as enabled.
-    //! If some prefix of the \a path references an enabled node then nothing is done.
-    Void add_enabled( const BinaryWord & path );
-
-    //! \brief This method adjoins the enabled nodes of \a subTree to this tree.
-    //! Note that, the position of the root node of \a subTree within this
-    //! tree is defined by path.
-    Void add_enabled( const BinaryTreeNode * pOtherSubTree, const BinaryWord & path );
-
-    //! \brief This method merges \a pFromTreeRoot into \a pToTreeRoot.
-    //! The enabled nodes of the former tree are added to the latter tree.
-    //! If in the latter tree there is an enabled leaf node and in the former
-    //! tree the corresponding node is not a leaf, then this node of the latter
-    //! tree stays intact. If on the other hand we have a non-leaf node in
-    //! \a pToTreeRoot and we are adding to it an enabled node of \a pFromTreeRoot
-    //! then we just "substitute" the former one with the latter.
-    //! NOTE: 1. This function is recursive. 2. No pointers are copied between
-    //! \a pToTreeRoot and \a pFromTreeRoot.
-    Void add_enabled( BinaryTreeNode* pToTreeRoot, const BinaryTreeNode* pFromTreeRoot );
-
-    //! \brief Starting in the \a pNode node as at the root, this method counts
-    //! the number of enabled leaf nodes in the subtree
-    //! rooted at pNode.
-    static SizeType count_enabled_leaf_nodes( const BinaryTreeNode* pNode );
-
-    //! \brief Starting in the \a pRootTreeNode node as at the root, this method finds(creates)
-    //! the leaf node defined by the \a path and marks it as enabled. If some prefix of the \a path
-    //! references an enabled node then nothing is done.
-    //! NOTE: This is a recursive method on the position (\a position) in the binary path (\a path).
-    //! Therefore, the initial evaluate of this method should be done with \a position == 0;
-    static Void add_enabled( BinaryTreeNode* pRootTreeNode, const BinaryWord& path, const Nat position = 0 );
-
-    //! \brief Creates a binary tree of the height rootNodePath.size(), puts the subtree oldRootNode
-    //! into the node defined by the path \a rootNodePath, returns the root node of the extended tree.
-    static BinaryTreeNode * prepend_tree( const BinaryWord & rootNodePath, BinaryTreeNode * oldRootNode);
-
-    //! \brief This method restricts \a pThisNode to \a pOtherNode.
-    //! In essance we do the inplace AND on the tree node pThisNode.
-    //! Note that, this method is recursive.
-    static Void restrict( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode );
-
-    //! \brief This method removed enabled nodes of \a pOtherNode from \a pThisNode.
-    //! Note that, this method is recursive.
-    static Void remove( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode );
-
-    //! \brief checks if two trees intersect in a set-theory sence.
-    //! I.e. we assume that pRootNodeOne and pRootNodeTwo correspond to the same (virtual) root
-    //! and then we see if the enabled leaf node of one tree contain enabled leaf nodes of
-    //! another tree as their (virtual) children.
-    static Bool intersect( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo );
-
-    //! \brief checks if the tree pRootNodeOne is a subset of the tree pRootNodeTwo, in a set-theory sence.
-    //! I.e. we assume that pRootNodeOne and pRootNodeTwo correspond to the same (virtual) root
-    //! and then we see if every enabled leaf node of pRootNodeOne is contained in the enabled leaf nodes of
-    //! pRootNodeTwo, or it is covered by the enabled leaf nodes of pRootNodeTwo. When we _write, contained and
-    //! covered then we mean: is a subnode in the (virtual) tree and all it's subnodes in the (virtual) tree.
-    static Bool subset( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo );
-
-    //!@}
-};
-
-//***************************************BinaryTreeNode**********************************************/
-
-inline Void BinaryTreeNode::init( ValidatedKleenean isEnabled, BinaryTreeNode* pLeftNode, BinaryTreeNode* pRightNode ) {
-    _isEnabled = isEnabled;
-    _pLeftNode = pLeftNode;
-    _pRightNode = pRightNode;
-}
-
-inline BinaryTreeNode::BinaryTreeNode(const ValidatedKleenean isEnabled) {
-    init( isEnabled, nullptr, nullptr );
-}
-
-inline BinaryTreeNode::BinaryTreeNode(const BinaryTreeNode& theTreeNode) {
-    if( (theTreeNode._pLeftNode) != nullptr && ( theTreeNode._pRightNode != nullptr ) ) {
-        init( theTreeNode._isEnabled, new BinaryTreeNode( *theTreeNode._pLeftNode ), new BinaryTreeNode( *theTreeNode._pRightNode ) );
-    } else {
-        //NOTE: We do not allow for nodes where one leaf is nullptr and another is not
-        init( theTreeNode._isEnabled, nullptr, nullptr );
-    }
-}
-
-inline BinaryTreeNode::BinaryTreeNode( const BooleanArray& theTree, const BooleanArray& theEnabledCells ) {
-    //Make default initialization
-    init( false, nullptr, nullptr ) ;
-
-    //If the tree is not empry and there are enabled leafs then do the thing
-    if( ( theTree.size() ) > 0 && ( theEnabledCells.size() > 0 ) ) {
-        Nat arr_index = 0, leaf_counter = 0;
-        restore_node( this, arr_index, leaf_counter, theTree, theEnabledCells );
-    } else {
-        //Otherwise settle with one disabled node
-        this->set_disabled();
-    }
-}
-
-inline BinaryTreeNode::~BinaryTreeNode() {
-    if( _pLeftNode != nullptr ) {
-        delete _pLeftNode;
-    }
-    if( _pRightNode != nullptr ) {
-        delete _pRightNode;
-    }
-}
-
-inline Bool BinaryTreeNode::is_enabled() const {
-    return definitely(_isEnabled);
-}
-
-inline Bool BinaryTreeNode::is_disabled() const{
-    return ! possibly(_isEnabled) ;
-}
-
-inline Bool BinaryTreeNode::is_leaf() const{
-    return (_pLeftNode == nullptr) && (_pRightNode == nullptr);
-}
-
-inline BinaryTreeNode * BinaryTreeNode::child_node(Bool left_or_right) const {
-    return left_or_right ? _pRightNode : _pLeftNode;
-}
-
-inline BinaryTreeNode * BinaryTreeNode::left_node() const {
-    return _pLeftNode;
-}
-
-inline BinaryTreeNode * BinaryTreeNode::right_node() const {
-    return _pRightNode;
-}
-
-inline Void BinaryTreeNode::set(Bool enabled_or_disabled) {
-    _isEnabled = enabled_or_disabled;
-    if( _pLeftNode != nullptr ) {
-        delete _pLeftNode;
-    }
-    if( _pRightNode != nullptr ) {
-        delete _pRightNode;
-    }
-}
-
-inline Void BinaryTreeNode::set_enabled() {
-    if ( is_leaf() ) {
-        _isEnabled = true;
-    } else {
-        throw NotALeafNodeException(ARIADNE_PRETTY_FUNCTION);
-    }
-}
-
-inline Void BinaryTreeNode::copy_from( const BinaryTreeNode * pOtherNode ) {
-    if( pOtherNode != nullptr ) {
-        _isEnabled = pOtherNode->_isEnabled;
-        if( _pLeftNode != nullptr) { delete _pLeftNode; _pLeftNode = nullptr; }
-        if( _pRightNode != nullptr) { delete _pRightNode; _pRightNode = nullptr; }
-        if( pOtherNode->_pLeftNode != nullptr ) { _pLeftNode = new BinaryTreeNode( * (pOtherNode->_pLeftNode) ); }
-        if( pOtherNode->_pRightNode != nullptr ) { _pRightNode = new BinaryTreeNode( * (pOtherNode->_pRightNode) ); }
-    }
-}
-
-inline Void BinaryTreeNode::set_disabled() {
-    if ( is_leaf() ) {
-        _isEnabled = false;
-    } else {
-        throw NotALeafNodeException(ARIADNE_PRETTY_FUNCTION);
-    }
-}
-
-inline Void BinaryTreeNode::set_unknown() {
-    if ( ! is_leaf() ) {
-        _isEnabled = indeterminate;
-    } else {
-        throw IsALeafNodeException(ARIADNE_PRETTY_FUNCTION);
-    }
-}
-
-inline Void BinaryTreeNode::make_leaf(ValidatedKleenean is_enabled ) {
-    _isEnabled = is_enabled;
-    if( _pLeftNode != nullptr ) { delete _pLeftNode; _pLeftNode= nullptr; }
-    if( _pRightNode != nullptr ) { delete _pRightNode; _pRightNode= nullptr; }
-}
-
-inline Void BinaryTreeNode::split() {
-    if ( is_leaf() ) {
-        _pLeftNode  = new BinaryTreeNode(_isEnabled);
-        _pRightNode = new BinaryTreeNode(_isEnabled);
-        set_unknown();
-    }
-}
-
-inline Void BinaryTreeNode::add_enabled( const BinaryWord& path ) {
-    add_enabled( this, path, 0 );
-}
-
-inline Void BinaryTreeNode::mince(const Nat depth) {
-    mince_node(this, depth);
-}
-
-inline Void BinaryTreeNode::recombine() {
-    recombine_node(this);
-}
-
-inline String BinaryTreeNode::node_to_string() const {
-    std::stringstream tmp_stream;
-    tmp_stream << "BinaryTreeNode( isLeaf = " << is_leaf() << ", isEnabled = " << is_enabled() << ", isDisabled = " << is_disabled() << " )";
-    return tmp_stream.str();
-}
-
-inline BinaryTreeNode& BinaryTreeNode::operator=( const BinaryTreeNode & otherNode ) {
-    //Copy the node value
-    _isEnabled = otherNode._isEnabled;
-
-    //Deallocate memory for the children, if any
-    if( _pLeftNode != nullptr ) { delete _pLeftNode; _pLeftNode = nullptr; }
-    if( _pRightNode != nullptr ) { delete _pRightNode; _pRightNode = nullptr; }
-
-    //Copy the children trees from the otherNode
-    if( otherNode._pLeftNode != nullptr ) { _pLeftNode = new BinaryTreeNode( * ( otherNode._pLeftNode ) ); }
-    if( otherNode._pRightNode != nullptr ) { _pRightNode = new BinaryTreeNode( * ( otherNode._pRightNode ) ); }
-
-    return *this;
-}
-
-//*************************************FRIENDS OF BinaryTreeNode***************************************/
-
-//! \brief Stream insertion operator, prints out two binary arrays, one is the tree structure
-//! and the other is the true/false (enabled/disabled) values for the leaf nodes
-inline OutputStream& operator<<(OutputStream& output_stream, const BinaryTreeNode & binary_tree ) {
-    BinaryWord tree, leaves;
-    binary_tree.tree_to_binary_words( tree, leaves );
-    return output_stream << "BinaryTreeNode( Tree: " << tree << ", Leaves: " << leaves << ")";
-}
-
-
-} // namespace Ariadne
-
-
-#endif /* ARIADNE_BINARY_TREE_HPP */
+/***************************************************************************
+ *            geometry/binary_tree.hpp
+ *
+ *  Copyright  2008-20  Ivan S. Zapreev, Pieter Collins
+ *
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+#ifndef ARIADNE_BINARY_TREE_HPP
+#define ARIADNE_BINARY_TREE_HPP
+
+
+#include <iostream>
+#include <iomanip>
+
+#include "function/functional.hpp"
+#include "utility/macros.hpp"
+#include "utility/exceptions.hpp"
+#include "utility/stlio.hpp"
+#include "utility/binary_word.hpp"
+#include "geometry/list_set.hpp"
+
+
+namespace Ariadne {
+
+//! \brief The binary-tree node operation is not allowed on a non-leaf node.
+class NotALeafNodeException : public std::logic_error {
+  public:
+    NotALeafNodeException(const StringType& str) : std::logic_error(str) { }
+};
+
+//! \brief The binary-tree node operation is not allowed on a leaf node.
+class IsALeafNodeException : public std::logic_error {
+  public:
+    IsALeafNodeException(const StringType& str) : std::logic_error(str) { }
+};
+
+typedef std::vector<Bool> BooleanArray;
+
+//***************************************BinaryTreeNode************************************/
+
+//! \brief The binary tree node.
+//!
+//! This node is to be used in a binary tree designed for subdividing the state
+//! space into enabled and disabled cells. This is required for representing
+//! subsets of the state space.
+//!
+//! \b Storage: We only store pointers to the left and right subtrees and the ValidatedKleenean
+//! value indicating whether this cell is enabled/disabled or we do not know.
+class BinaryTreeNode {
+  protected:
+    //! \brief Defines whether the given node of the tree is on/off or we do not know*/
+    ValidatedKleenean _isEnabled;
+
+    /*! \brief The left and right subnodes of the tree. Note that,
+     * \a pLeftNode == \a nullptr iff \a pRightNode == \a nullptr. The latter
+     * is allowed iff \a _isEnabled == \a TRUE or \a _isEnabled == \a FALSE,
+     * i.e. the node can be a leaf.
+     */
+    BinaryTreeNode* _pLeftNode;
+    BinaryTreeNode* _pRightNode;
+
+    //! \brief This method splits the enabled subtrees of the tree rooted to
+    //! \a pCurrentNode in such a way that the tree depth becomes \a depth.
+    //! If the initial tree depth is greater than \a depth then nothing is done.
+    Void mince_node(BinaryTreeNode* pCurrentNode, const Nat depth);
+
+    //! \brief This method recombined the sub tree nodes rooted to \a pCurrentNode.
+    //! Note that, the two leaf nodes with the same parent are removed if they have
+    //! the same value of isEnabled fields.
+    Void recombine_node(BinaryTreeNode * pCurrentNode);
+
+    //! \brief This method is used for recursive restoration of the binary tree from
+    //! the used data, i.e. \a theTree and \a theEnabledCells. It is used in the
+    //! constructor \a BinaryTreeNode( const BooleanArray& , const BooleanArray& )
+    Void restore_node( BinaryTreeNode * pCurrentNode, Nat & arr_index, Nat & leaf_counter,
+                       const BooleanArray& theTree, const BooleanArray& theEnabledCells);
+
+    //! \brief This method is used in constructors for the node initialization
+    Void init( ValidatedKleenean isEnabled, BinaryTreeNode* pLeftNode, BinaryTreeNode* pRightNode );
+
+  public:
+    //!@{
+    //! \name Constructors
+
+    //! \brief Construct a tree node.
+      explicit BinaryTreeNode(const ValidatedKleenean _isEnabled = false );
+
+    //! \brief The copy constructor.
+    //! The the node and all it's sub nodes are copied.
+    explicit BinaryTreeNode(const BinaryTreeNode& theTreeNode);
+
+    //! \brief Constructs a binary tree from the boolean arrays. \a theTree defines
+    //! the tree structure, \a theEnabledCells defines the tree nodes.
+    //! IVAN S. ZAPREEV:
+    //! WARNING: We assume that every node has either no children or both of them!
+    //! NOTE: The dinary data of the tree is organized in the following way:
+    //!          1      The \a theTree contains Depth first search lay out of the tree,
+    //!         / \     where 1 stands for the non-leaf node and 0 for a leaf node, we
+    //!        /   \    always visit the left su-node first, e.g. the tree on the left
+    //!       2     5   is encodes the Array:     [1, 1, 0, 0, 0]
+    //!      / \        where the corresponding    ^  ^  ^  ^  ^
+    //!     /   \       tree nodes are:            1  2  3  4  5
+    //!    3     4      \a theEnabledCells contains true/false values for the leaf nodes
+    //! of the tree. Their order is the same as in \a theTree, e.g. here it is: 3,4,5
+    explicit BinaryTreeNode( const BooleanArray& theTree, const BooleanArray& theEnabledCells );
+
+    //!@}
+
+    ~BinaryTreeNode();
+
+    //!@{
+    //! \name Properties
+
+    //! \brief Returns true if the node is marked as enabled, otherwise false
+    Bool is_enabled() const;
+
+    //! \brief Returns true if some of the leaf nodes in the tree rooted to this node are enabled, otherwise false
+    Bool has_enabled() const;
+
+    //! \brief Returns true if all leaf nodes in the tree rooted to this node are enabled, otherwise false
+    Bool all_enabled() const;
+
+    //! \brief This method returns true if the given path defines a node in the tree that is either enabled
+    //! or is in a "virtual" subtree of some enabled node (note that enabled nodes can only be leafs).
+    //! Note that: \a path is treated as if it is rooted to this node, we assume that the path starts
+    //! from position \a position of \a path. The parameter \a position is used for recursive calls only.
+    Bool is_enabled( const BinaryWord & path, const Nat position = 0) const;
+
+    //! \brief Returns true if the node is marked as disabled, otherwise false
+    Bool is_disabled() const;
+
+    //! \brief Returns true if the node is a leaf (pLeftNode == nullptr && pRightNode == nullptr) otherwise false
+    Bool is_leaf() const;
+
+    //! \brief Return the left or right sub-node
+    BinaryTreeNode * child_node(Bool left_or_right) const;
+
+    //! \brief Return the left sub-node
+    BinaryTreeNode * left_node() const;
+
+    //! \brief Return the right sub-node
+    BinaryTreeNode * right_node() const;
+
+    //! \brief Returns the depth of the sub-tree rooted to the given node, i.e. the depth of it's deepest node
+    Nat depth() const;
+
+    //! \brief Allows to compare to binaty tree nodes
+    Bool operator==(const BinaryTreeNode & otherNode ) const;
+
+    //! \brief Marks the node as enabled or disabled.
+    Void set(Bool all_enabled_or_all_disabled);
+
+    static Bool is_equal_nodes( const BinaryTreeNode * pFirstNode, const BinaryTreeNode * pSecondNode );
+
+    //!@}
+
+    //!@{
+    //! \name Leaf Operations
+
+    //! \brief This method makes the node to become a leaf node with the enabled value : \a is_enabled
+    //! NOTE: the leat and the right sub-trees (are deallocated.
+    //! WARNING: this method MUST NOT be called on a non-leaf node!!!
+    Void make_leaf( ValidatedKleenean is_enabled );
+
+    //! \brief Marks the leaf node as enabled, otherwise they through \a NotALeafNodeEsception
+    Void set_enabled();
+
+    //! \brief Marks the leaf node as disabled, otherwise they through \a NotALeafNodeEsception
+    Void set_disabled();
+
+    //! \brief Marks the node as neither enabled nor disabled, is only applicable to non-leaf nodes.
+    //! When applied to a leaf node, throws IsALeafNodeException.
+    Void set_unknown();
+
+    //! \brief Splits the leaf node, i.e. adds two subnodes with the _isEnabled field value inherited from the parent node.
+    //! The parent's _isEnabled is set to intermediate, because the subsequent operation on the subtree might enable/disable
+    //! subnodes and we do not want to keep track of these changes. If the node is not a leaf then nothing is done.
+    Void split();
+
+    //! \brief This method splits the enabled subtrees of the tree rooted to
+    //! this node in such a way that the tree depth becomes \a depth.
+    //! If the initial tree depth is greater than \a depth then nothing is done.
+    Void mince(const Nat depth);
+
+    //!@}
+
+    //!@{
+    //! \name
+
+    //! \brief Allows to assign one binary tree node to the other, this is done by copying
+    //! the nodes value and the sub-trees. The sub-trees of this node are deallocated.
+    BinaryTreeNode& operator=(const BinaryTreeNode & otherNode );
+
+    //! \brief Copy all the data (including the sub-nodes) from the node pointed by \a pOtherNode into the given node.
+    //! Note that here we will create copies of the sub nodes, and NOT just copy pointers to them!
+    Void copy_from( const BinaryTreeNode * pOtherNode );
+
+    //! \brief This method recombined the sub tree nodes. Note that, the two leaf nodes with
+    //! the same parent are removed if they have the same value of isEnabled fields.
+    Void recombine();
+
+    //! \brief Stores the binary tree in a form of two arrays, their structure is the same as needed for
+    //! the BinaryTreeNode( const BooleanArray& , const BooleanArray&  ) constructor
+    Void tree_to_binary_words( BinaryWord & tree, BinaryWord & leaves ) const;
+
+    //! \brief Stores the binary tree node as a string*/
+    String node_to_string() const;
+
+    //! \brief Finds(creates) the leaf node defined by the \a path and marks it as enabled.
+    //! If some prefix of the \a path references an enabled node then nothing is done.
+    Void add_enabled( const BinaryWord & path );
+
+    //! \brief This method adjoins the enabled nodes of \a subTree to this tree.
+    //! Note that, the position of the root node of \a subTree within this
+    //! tree is defined by path.
+    Void add_enabled( const BinaryTreeNode * pOtherSubTree, const BinaryWord & path );
+
+    //! \brief This method merges \a pFromTreeRoot into \a pToTreeRoot.
+    //! The enabled nodes of the former tree are added to the latter tree.
+    //! If in the latter tree there is an enabled leaf node and in the former
+    //! tree the corresponding node is not a leaf, then this node of the latter
+    //! tree stays intact. If on the other hand we have a non-leaf node in
+    //! \a pToTreeRoot and we are adding to it an enabled node of \a pFromTreeRoot
+    //! then we just "substitute" the former one with the latter.
+    //! NOTE: 1. This function is recursive. 2. No pointers are copied between
+    //! \a pToTreeRoot and \a pFromTreeRoot.
+    Void add_enabled( BinaryTreeNode* pToTreeRoot, const BinaryTreeNode* pFromTreeRoot );
+
+    //! \brief Starting in the \a pNode node as at the root, this method counts
+    //! the number of enabled leaf nodes in the subtree
+    //! rooted at pNode.
+    static SizeType count_enabled_leaf_nodes( const BinaryTreeNode* pNode );
+
+    //! \brief Starting in the \a pRootTreeNode node as at the root, this method finds(creates)
+    //! the leaf node defined by the \a path and marks it as enabled. If some prefix of the \a path
+    //! references an enabled node then nothing is done.
+    //! NOTE: This is a recursive method on the position (\a position) in the binary path (\a path).
+    //! Therefore, the initial evaluate of this method should be done with \a position == 0;
+    static Void add_enabled( BinaryTreeNode* pRootTreeNode, const BinaryWord& path, const Nat position = 0 );
+
+    //! \brief Creates a binary tree of the height rootNodePath.size(), puts the subtree oldRootNode
+    //! into the node defined by the path \a rootNodePath, returns the root node of the extended tree.
+    static BinaryTreeNode * prepend_tree( const BinaryWord & rootNodePath, BinaryTreeNode * oldRootNode);
+
+    //! \brief This method restricts \a pThisNode to \a pOtherNode.
+    //! In essance we do the inplace AND on the tree node pThisNode.
+    //! Note that, this method is recursive.
+    static Void restrict( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode );
+
+    //! \brief This method removed enabled nodes of \a pOtherNode from \a pThisNode.
+    //! Note that, this method is recursive.
+    static Void remove( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode );
+
+    //! \brief checks if two trees intersect in a set-theory sence.
+    //! I.e. we assume that pRootNodeOne and pRootNodeTwo correspond to the same (virtual) root
+    //! and then we see if the enabled leaf node of one tree contain enabled leaf nodes of
+    //! another tree as their (virtual) children.
+    static Bool intersect( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo );
+
+    //! \brief checks if the tree pRootNodeOne is a subset of the tree pRootNodeTwo, in a set-theory sence.
+    //! I.e. we assume that pRootNodeOne and pRootNodeTwo correspond to the same (virtual) root
+    //! and then we see if every enabled leaf node of pRootNodeOne is contained in the enabled leaf nodes of
+    //! pRootNodeTwo, or it is covered by the enabled leaf nodes of pRootNodeTwo. When we _write, contained and
+    //! covered then we mean: is a subnode in the (virtual) tree and all it's subnodes in the (virtual) tree.
+    static Bool subset( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo );
+
+    //!@}
+};
+
+//***************************************BinaryTreeNode**********************************************/
+
+inline Void BinaryTreeNode::init( ValidatedKleenean isEnabled, BinaryTreeNode* pLeftNode, BinaryTreeNode* pRightNode ) {
+    _isEnabled = isEnabled;
+    _pLeftNode = pLeftNode;
+    _pRightNode = pRightNode;
+}
+
+inline BinaryTreeNode::BinaryTreeNode(const ValidatedKleenean isEnabled) {
+    init( isEnabled, nullptr, nullptr );
+}
+
+inline BinaryTreeNode::BinaryTreeNode(const BinaryTreeNode& theTreeNode) {
+    if( (theTreeNode._pLeftNode) != nullptr && ( theTreeNode._pRightNode != nullptr ) ) {
+        init( theTreeNode._isEnabled, new BinaryTreeNode( *theTreeNode._pLeftNode ), new BinaryTreeNode( *theTreeNode._pRightNode ) );
+    } else {
+        //NOTE: We do not allow for nodes where one leaf is nullptr and another is not
+        init( theTreeNode._isEnabled, nullptr, nullptr );
+    }
+}
+
+inline BinaryTreeNode::BinaryTreeNode( const BooleanArray& theTree, const BooleanArray& theEnabledCells ) {
+    //Make default initialization
+    init( false, nullptr, nullptr ) ;
+
+    //If the tree is not empry and there are enabled leafs then do the thing
+    if( ( theTree.size() ) > 0 && ( theEnabledCells.size() > 0 ) ) {
+        Nat arr_index = 0, leaf_counter = 0;
+        restore_node( this, arr_index, leaf_counter, theTree, theEnabledCells );
+    } else {
+        //Otherwise settle with one disabled node
+        this->set_disabled();
+    }
+}
+
+inline BinaryTreeNode::~BinaryTreeNode() {
+    if( _pLeftNode != nullptr ) {
+        delete _pLeftNode;
+    }
+    if( _pRightNode != nullptr ) {
+        delete _pRightNode;
+    }
+}
+
+inline Bool BinaryTreeNode::is_enabled() const {
+    return definitely(_isEnabled);
+}
+
+inline Bool BinaryTreeNode::is_disabled() const{
+    return ! possibly(_isEnabled) ;
+}
+
+inline Bool BinaryTreeNode::is_leaf() const{
+    return (_pLeftNode == nullptr) && (_pRightNode == nullptr);
+}
+
+inline BinaryTreeNode * BinaryTreeNode::child_node(Bool left_or_right) const {
+    return left_or_right ? _pRightNode : _pLeftNode;
+}
+
+inline BinaryTreeNode * BinaryTreeNode::left_node() const {
+    return _pLeftNode;
+}
+
+inline BinaryTreeNode * BinaryTreeNode::right_node() const {
+    return _pRightNode;
+}
+
+inline Void BinaryTreeNode::set(Bool enabled_or_disabled) {
+    _isEnabled = enabled_or_disabled;
+    if( _pLeftNode != nullptr ) {
+        delete _pLeftNode;
+    }
+    if( _pRightNode != nullptr ) {
+        delete _pRightNode;
+    }
+}
+
+inline Void BinaryTreeNode::set_enabled() {
+    if ( is_leaf() ) {
+        _isEnabled = true;
+    } else {
+        throw NotALeafNodeException(ARIADNE_PRETTY_FUNCTION);
+    }
+}
+
+inline Void BinaryTreeNode::copy_from( const BinaryTreeNode * pOtherNode ) {
+    if( pOtherNode != nullptr ) {
+        //Copy the children before deleting our own, since the other node may be one of them (or this node itself)
+        BinaryTreeNode * pNewLeftNode = ( pOtherNode->_pLeftNode != nullptr ) ? new BinaryTreeNode( * (pOtherNode->_pLeftNode) ) : nullptr;
+        BinaryTreeNode * pNewRightNode = ( pOtherNode->_pRightNode != nullptr ) ? new BinaryTreeNode( * (pOtherNode->_pRightNode) ) : nullptr;
+        _isEnabled = pOtherNode->_isEnabled;
+        if( _pLeftNode != nullptr) { delete _pLeftNode; }
+        if( _pRightNode != nullptr) { delete _pRightNode; }
+        _pLeftNode = pNewLeftNode;
+        _pRightNode = pNewRightNode;
+    }
+}
+
+inline Void BinaryTreeNode::set_disabled() {
+    if ( is_leaf() ) {
+        _isEnabled = false;
+    } else {
+        throw NotALeafNodeException(ARIADNE_PRETTY_FUNCTION);
+    }
+}
+
+inline Void BinaryTreeNode::set_unknown() {
+    if ( ! is_leaf() ) {
+        _isEnabled = indeterminate;
+    } else {
+        throw IsALeafNodeException(ARIADNE_PRETTY_FUNCTION);
+    }
+}
+
+inline Void BinaryTreeNode::make_leaf(ValidatedKleenean is_enabled ) {
+    _isEnabled = is_enabled;
+    if( _pLeftNode != nullptr ) { delete _pLeftNode; _pLeftNode= nullptr; }
+    if( _pRightNode != nullptr ) { delete _pRightNode; _pRightNode= nullptr; }
+}
+
+inline Void BinaryTreeNode::split() {
+    if ( is_leaf() ) {
+        _pLeftNode  = new BinaryTreeNode(_isEnabled);
+        _pRightNode = new BinaryTreeNode(_isEnabled);
+        set_unknown();
+    }
+}
+
+inline Void BinaryTreeNode::add_enabled( const BinaryWord& path ) {
+    add_enabled( this, path, 0 );
+}
+
+inline Void BinaryTreeNode::mince(const Nat depth) {
+    mince_node(this, depth);
+}
+
+inline Void BinaryTreeNode::recombine() {
+    recombine_node(this);
+}
+
+inline String BinaryTreeNode::node_to_string() const {
+    std::stringstream tmp_stream;
+    tmp_stream << "BinaryTreeNode( isLeaf = " << is_leaf() << ", isEnabled = " << is_enabled() << ", isDisabled = " << is_disabled() << " )";
+    return tmp_stream.str();
+}
+
+inline BinaryTreeNode& BinaryTreeNode::operator=( const BinaryTreeNode & otherNode ) {
+    this->copy_from( &otherNode );
+    return *this;
+}
+
+//*************************************FRIENDS OF BinaryTreeNode***************************************/
+
+//! \brief Stream insertion operator, prints out two binary arrays, one is the tree structure
+//! and the other is the true/false (enabled/disabled) values for the leaf nodes
+inline OutputStream& operator<<(OutputStream& output_stream, const BinaryTreeNode & binary_tree ) {
+    BinaryWord tree, leaves;
+    binary_tree.tree_to_binary_words( tree, leaves );
+    return output_stream << "BinaryTreeNode( Tree: " << tree << ", Leaves: " << leaves << ")";
+}
+
+
+} // namespace Ariadne
+
+
+#endif /* ARIADNE_BINARY_TREE_HPP */
-- 
2.43.0


From ef03d01ae1366564690795b04987011890ae1e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:38 +0000
Subject: [PATCH 36/63] fix: derivatives of asin and acos

---
 source/numeric/operators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index e5c7097..97e51d5 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -385,13 +385,13 @@ struct Tan : OperatorObject<Tan> {
 struct Asin : OperatorObject<Asin> {
     static constexpr OperatorCode code() { return OperatorCode::ASIN; } static constexpr OperatorKind kind() { return OperatorKind::UNARY; }
     template<class A> auto operator()(A&& a) const -> decltype(asin(a)) { return asin(a); }
-    template<class X> X derivative(const X& a) const { return rec(1-sqrt(a)); }
+    template<class X> X derivative(const X& a) const { return rec(sqrt(1-sqr(a))); }
     template<class X,class D> D derivative(const X& a, const D& d) const { return derivative(a)*d; }
 };
 struct Acos : OperatorObject<Acos> {
     static constexpr OperatorCode code() { return OperatorCode::ACOS; } static constexpr OperatorKind kind() { return OperatorKind::UNARY; }
     template<class A> auto operator()(A&& a) const -> decltype(acos(a)) { return acos(a); }
-    template<class X> X derivative(const X& a) const { return rec(1-sqrt(a)); }
+    template<class X> X derivative(const X& a) const { return neg(rec(sqrt(1-sqr(a)))); }
     template<class X,class D> D derivative(const X& a, const D& d) const { return derivative(a)*d; }
 };
 struct Atan : OperatorObject<Atan> {
-- 
2.43.0


From 82a63ce6bd452dea1ed1938452b914fb9f78a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:38 +0000
Subject: [PATCH 37/63] fix: derivatives of hlf and abs

---
 source/numeric/operators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index 97e51d5..ee4a956 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -331,7 +331,7 @@ struct Neg : OperatorObject<Neg> {
 struct Hlf : OperatorObject<Hlf> {
     static constexpr OperatorCode code() { return OperatorCode::HLF; } static constexpr OperatorKind kind() { return OperatorKind::UNARY; }
     template<class A> auto operator()(A&& a) const -> decltype(hlf(a)) { return hlf(a); }
-    template<class X> X derivative(const X& a) const { return hlf(a); }
+    template<class X> X derivative(const X& a) const { return hlf(nul(a)+1); }
     template<class X,class D> D derivative(const X& a, const D& d) const { return hlf(d); }
 };
 struct Rec : OperatorObject<Rec> {
@@ -416,7 +416,7 @@ struct Min : OperatorObject<Min> {
 struct Abs : OperatorObject<Abs> {
     static constexpr OperatorCode code() { return OperatorCode::ABS; } static constexpr OperatorKind kind() { return OperatorKind::BINARY; }
     template<class A> auto operator()(A&& a) const -> decltype(abs(a)) { return abs(a); }
-    template<class X,class D> D derivative(const X& a, const D& d) const { return a>=0 ? a : -a; }
+    template<class X,class D> D derivative(const X& a, const D& d) const { return a>=0 ? d : -d; }
 };
 
 struct Sgn : ComparisonObject<Sgn> {
-- 
2.43.0


From db357bc430cf926798713a57bce015ce7535d1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:38 +0000
Subject: [PATCH 38/63] fix: do not cancel sqrt(sqr(x)) or atan(tan(x))

---
 source/numeric/operators.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index ee4a956..0388f24 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -503,11 +503,9 @@ constexpr Pos inverse(Pos) { return Pos(); }
 constexpr Neg inverse(Neg) { return Neg(); }
 constexpr Rec inverse(Rec) { return Rec(); }
 constexpr Sqrt inverse(Sqr) { return Sqrt(); }
-constexpr Sqr inverse(Sqrt) { return Sqr(); }
 constexpr Log inverse(Exp) { return Log(); }
 constexpr Exp inverse(Log) { return Exp(); }
 constexpr Atan inverse(Tan) { return Atan(); }
-constexpr Tan inverse(Atan) { return Tan(); }
 
 template<class OP> using InverseType = decltype(inverse(declval<OP>()));
 
-- 
2.43.0


From 0e7bd493f5d405a5821d89bde2cc56a9a11092f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:38 +0000
Subject: [PATCH 39/63] fix: convert scalar operations of a formula to scalar
 instructions of a procedure

---
 source/function/procedure.tpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index 1ae9da6..11b33f0 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -68,7 +68,8 @@ template<class Y> Void _convert_impl(List<ProcedureInstruction>& p, List<Y>& c,
         Void operator()(GradedFormulaNode<Y> const& f) {
             p.append(ProcedureInstruction(f._op,_convert(p,c,f._arg,cache),f._num)); }
         Void operator()(ScalarFormulaNode<Y> const& f) {
-            c.append(f._cnst); p.append(ProcedureInstruction(f._op,c.size()-1u,_convert(p,c,f._arg,cache))); }
+            SizeType a=_convert(p,c,f._arg,cache); c.append(f._cnst);
+            p.append(ProcedureInstruction(ProcedureInstructionVariant(ScalarProcedureInstruction(f._op,c.size()-1u,a)))); }
     };
     f.accept(Visitor{p,c,cache});
 }
-- 
2.43.0


From 32029b86b050a5125cac63ffbee0569150e5dda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:38 +0000
Subject: [PATCH 40/63] fix: set the argument size of a vector procedure made
 from a scalar one

---
 source/function/procedure.tpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index 11b33f0..261563f 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -183,7 +183,8 @@ Vector<Procedure<Y>>::Vector(VectorMultivariateFunction<P> const& f)
 
 template<class Y>
 Vector<Procedure<Y>>::Vector(const Procedure<Y>& f)
-    : _constants(f._constants)
+    : _argument_size(f._argument_size)
+    , _constants(f._constants)
     , _instructions(f._instructions)
     , _results(1u,f._instructions.size()-1u)
 {
-- 
2.43.0


From 3952047dc4a13188599ce17681eb3a1add9011d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:32 +0000
Subject: [PATCH 41/63] fix: clear the child pointers when setting a whole
 binary tree

---
 source/geometry/binary_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/geometry/binary_tree.hpp b/source/geometry/binary_tree.hpp
index aba2773..a4c595d 100644
--- a/source/geometry/binary_tree.hpp
+++ b/source/geometry/binary_tree.hpp
@@ -356,10 +356,10 @@ inline BinaryTreeNode * BinaryTreeNode::right_node() const {
 inline Void BinaryTreeNode::set(Bool enabled_or_disabled) {
     _isEnabled = enabled_or_disabled;
     if( _pLeftNode != nullptr ) {
-        delete _pLeftNode;
+        delete _pLeftNode; _pLeftNode = nullptr;
     }
     if( _pRightNode != nullptr ) {
-        delete _pRightNode;
+        delete _pRightNode; _pRightNode = nullptr;
     }
 }
 
-- 
2.43.0


From 0a918eb07e25316dd2c8de1e2c09c6600a651f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:32 +0000
Subject: [PATCH 42/63] fix: allow an empty path when prepending a binary tree

---
 source/geometry/binary_tree.cpp | 942 ++++++++++++++++----------------
 1 file changed, 472 insertions(+), 470 deletions(-)

diff --git a/source/geometry/binary_tree.cpp b/source/geometry/binary_tree.cpp
index fc33d66..87f16a0 100644
--- a/source/geometry/binary_tree.cpp
+++ b/source/geometry/binary_tree.cpp
@@ -1,470 +1,472 @@
-/***************************************************************************
- *            geometry/binary_tree.cpp
- *
- *  Copyright  2008-20  Ivan S. Zapreev, Pieter Collins
- *
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-#include <iostream>
-#include <iomanip>
-
-#include "config.hpp"
-
-#include "function/functional.hpp"
-#include "utility/macros.hpp"
-#include "utility/exceptions.hpp"
-#include "utility/stlio.hpp"
-#include "geometry/list_set.hpp"
-#include "geometry/binary_tree.hpp"
-
-
-namespace Ariadne {
-
-
-Bool BinaryTreeNode::has_enabled() const {
-    if( is_leaf() ) {
-        return is_enabled();
-    } else {
-        return ( left_node()->has_enabled() || right_node()->has_enabled() );
-    }
-}
-
-Bool BinaryTreeNode::all_enabled() const {
-    if( is_leaf() ) {
-        return is_enabled();
-    } else {
-        return ( left_node()->all_enabled() && right_node()->all_enabled() );
-    }
-}
-
-Bool BinaryTreeNode::is_enabled( const BinaryWord & path, const Nat position) const {
-    Bool result = false ;
-
-    if( this->is_leaf() ){
-        //If we are in an enabled leaf node then the answer is true.
-        //Since path.size() >= 0, the node defined by the path is a
-        //subnode of an enabled node, thus we return true.
-        result = is_enabled();
-    } else {
-        if( position < path.size() ) {
-            //The path is not complete yet and we are in a
-            //non-leaf node, so we follow the path in the tree
-            if( path[ position ] ) {
-                result = right_node()->is_enabled( path, position + 1 );
-            } else {
-                result = left_node()->is_enabled( path, position + 1 );
-            }
-        } else {
-            //We are somewhere in the tree in a non-leaf node,
-            //this node corresponds to the node given by the path
-            //If both left and right sub trees are fully enabled,
-            //then the cell defined by the binary path is "enabled"
-            //in this tree otherwise it is not.
-            result = all_enabled();
-        }
-    }
-    return result;
-}
-
-Bool BinaryTreeNode::is_equal_nodes( const BinaryTreeNode * pFirstNode, const BinaryTreeNode * pSecondNode ) {
-    Bool result = true;
-
-    if( pFirstNode != pSecondNode){
-        //If the pointers do not reference the same objects
-        if( ( pFirstNode != nullptr ) && ( pSecondNode != nullptr ) ){
-            //And both nodes are not null
-            if( ! ( (* pFirstNode) == ( * pSecondNode ) ) ){
-                //The objects referenced by the pointers do not contain equal data
-                result = false;
-            }
-        } else {
-            //One of the nodes is null and the other is not
-            result = false;
-        }
-    }
-    return result;
-}
-
-Bool BinaryTreeNode::operator==(const BinaryTreeNode & otherNode ) const {
-    return ( ( definitely(this->_isEnabled == otherNode._isEnabled) ) ||
-             ( is_indeterminate( this->_isEnabled     ) &&
-               is_indeterminate( otherNode._isEnabled ) ) )            &&
-        is_equal_nodes( this->_pLeftNode , otherNode._pLeftNode )   &&
-        is_equal_nodes( this->_pRightNode , otherNode._pRightNode );
-}
-
-Void BinaryTreeNode::restrict( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode ){
-    if( ( pThisNode != nullptr ) && ( pOtherNode != nullptr ) ){
-        if( pThisNode->is_leaf() && pOtherNode->is_leaf() ){
-            //Both nodes are leaf nodes: Make a regular AND
-            pThisNode->_isEnabled = (pThisNode->_isEnabled && pOtherNode->_isEnabled);
-        } else {
-            if( !pThisNode->is_leaf() && pOtherNode->is_leaf() ){
-                if( pOtherNode->is_enabled() ){
-                    //DO NOTHING: The restriction will not affect pThisNode
-                } else {
-                    //Turn the node a disabled leaf, since we do AND with false
-                    pThisNode->make_leaf(false);
-                }
-            } else {
-                if( pThisNode->is_leaf() && !pOtherNode->is_leaf() ){
-                    if( pThisNode->is_enabled() ){
-                        //If this node is enabled then copy in the other node
-                        //Since it will be their intersection any ways
-                        pThisNode->copy_from( pOtherNode );
-                    } else {
-                        //DO NOTHING: The restriction is empty in this case
-                        //because this node is a disabled leaf
-                    }
-                } else {
-                    //Both nodes are non-leaf nodes: Go recursively left and right
-                    restrict( pThisNode->_pLeftNode, pOtherNode->_pLeftNode );
-                    restrict( pThisNode->_pRightNode, pOtherNode->_pRightNode );
-                }
-            }
-        }
-    }
-}
-
-Void BinaryTreeNode::remove( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode ) {
-    if( ( pThisNode != nullptr ) && ( pOtherNode != nullptr ) ){
-        if( pThisNode->is_leaf() && pOtherNode->is_leaf() ){
-            if( pThisNode->is_enabled() && pOtherNode->is_enabled() ){
-                //Both nodes are enabled leaf nodes: Make a regular subtraction, i.e. set the false
-                pThisNode->_isEnabled = false;
-            } else {
-                //DO NOTHING: In all other cases there is nothing to be done
-            }
-        } else {
-            if( !pThisNode->is_leaf() && pOtherNode->is_leaf() ){
-                if( pOtherNode->is_enabled() ){
-                    //Turn the node into a disabled leaf, since we subtract all below
-                    pThisNode->make_leaf(false);
-                } else {
-                    //DO NOTHING: We are trying to remove a disabled node
-                }
-            } else {
-                if( pThisNode->is_leaf() ) {
-                    if( pThisNode->is_enabled() ){
-                        //This is an enabled leaf node and so we might subtract smth from it
-                        //The pOtherNode is not a leaf, due to previous checks so we split
-                        //pThisNode and then do the recursion as in case on two non-leaf nodes
-                        pThisNode->split();
-                    } else {
-                        //DO NOTHING: We are trying to remove from a disabled leaf node. Whatever
-                        //we are trying to remove, will not have any effect on the result. We return
-                        //because in all remaining cases we need to do recursion for sub trees.
-                        return;
-                    }
-                } else {
-                    //We will have to do the recursion to remove the leaf nodes
-                }
-                //Both nodes are non-leaf nodes now: Go recursively left and right
-                remove( pThisNode->_pLeftNode, pOtherNode->_pLeftNode );
-                remove( pThisNode->_pRightNode, pOtherNode->_pRightNode );
-            }
-        }
-    }
-}
-
-Void BinaryTreeNode::restore_node( BinaryTreeNode * pCurrentNode, Nat & arr_index, Nat & leaf_counter,
-                                   const BooleanArray& theTree, const BooleanArray& theEnabledCells) {
-    //If we are not done with the the tree yet
-    if( arr_index < theTree.size() ) {
-        //If we are in a non-leaf node then go further
-        if( theTree[arr_index] ) {
-            pCurrentNode->split();
-            //IVAN S. ZAPREEV:
-            //NOTE: We assume a correct input, i.e. both children are present
-            //NOTE: We increase the arr_index before calling recursion for each
-            //      of the subnodes of the tree
-            restore_node( pCurrentNode->_pLeftNode, ++arr_index, leaf_counter, theTree, theEnabledCells );
-            restore_node( pCurrentNode->_pRightNode, ++arr_index, leaf_counter, theTree, theEnabledCells );
-        } else {
-            //If we are in a leaf node then chek if it needs to be enabled/disabled
-            pCurrentNode->_isEnabled = ValidatedKleenean(theEnabledCells[leaf_counter]);
-
-            leaf_counter++;
-        }
-    }
-}
-
-Void BinaryTreeNode::mince_node(BinaryTreeNode * pCurrentNode, const Nat depth) {
-    //If we need to mince further.
-    if( depth > 0 ){
-        //If the node is present, i.e. the parent is not a disabled node.
-        if( pCurrentNode != nullptr ){
-            //If the current node is not disabled: enabled (leaf) or
-            //indeterminate (non-leaf) then there is a work to do.
-            if( ! pCurrentNode->is_disabled() ){
-                pCurrentNode->split();
-
-                const Nat remaining_depth = depth - 1;
-
-                mince_node( pCurrentNode->_pLeftNode, remaining_depth );
-                mince_node( pCurrentNode->_pRightNode, remaining_depth );
-            }
-        } else {
-            throw std::runtime_error( ARIADNE_PRETTY_FUNCTION );
-        }
-    }
-}
-
-Void BinaryTreeNode::recombine_node(BinaryTreeNode * pCurrentNode) {
-    //Just a safety check
-    if( pCurrentNode != nullptr ){
-        //If it is not a leaf node then it should have both of it's subnodes != nullptr
-        if( ! pCurrentNode->is_leaf() ){
-            BinaryTreeNode * pLeftNode = pCurrentNode->_pLeftNode;
-            BinaryTreeNode * pRightNode = pCurrentNode->_pRightNode;
-
-            //This recursive calls ensure that we do recombination from the bottom up
-            recombine_node( pLeftNode );
-            recombine_node( pRightNode );
-
-            //Do the recombination for the leaf nodes rooted to pCurrentNode
-            if( pLeftNode->is_leaf() && pRightNode->is_leaf() ){
-                if( definitely(pLeftNode->_isEnabled == pRightNode->_isEnabled) ){
-                    //Make it the leaf node with the derived _isEnabled value
-                    pCurrentNode->make_leaf( pLeftNode->_isEnabled );
-                }
-            }
-        }
-    } else {
-        throw std::runtime_error( ARIADNE_PRETTY_FUNCTION );
-    }
-}
-
-Nat BinaryTreeNode::depth() const {
-    //The depth of the sub-tree rooted to this node
-    Nat result;
-
-    if( ! this->is_leaf() ){
-        //If the node is not a leaf, compute the depth of the sub-trees and take the maximum + 1
-        //Note that, both left and right sub-nodes must exist, by to the way we construct the tree
-        result = std::max(this->left_node()->depth(), this->right_node()->depth() ) + 1;
-    } else {
-        //If the node is a leaf then the depth of the sub-tree is zero
-        result = 0;
-    }
-
-    return result;
-}
-
-SizeType BinaryTreeNode::count_enabled_leaf_nodes( const BinaryTreeNode* pNode ) {
-    if(pNode->is_leaf()) {
-        return pNode->is_enabled() ? 1u : 0u;
-    } else {
-        return count_enabled_leaf_nodes(pNode->left_node())
-            + count_enabled_leaf_nodes(pNode->right_node());
-    }
-}
-
-Void BinaryTreeNode::tree_to_binary_words( BinaryWord & tree, BinaryWord & leaves ) const {
-    if( is_leaf() ) {
-        tree.push_back( false );
-        leaves.push_back( definitely( _isEnabled ) );
-    } else {
-        tree.push_back( true );
-        _pLeftNode->tree_to_binary_words( tree, leaves );
-        _pRightNode->tree_to_binary_words( tree, leaves );
-    }
-}
-
-Void BinaryTreeNode::add_enabled( const BinaryTreeNode * pOtherSubTree, const BinaryWord & path ){
-    //1. Locate the node, follow the path until it's end or until we meet an enabled node
-    BinaryTreeNode * pCurrentSubTree = this;
-    Nat position = 0;
-    while( ( position < path.size() ) && ! pCurrentSubTree->is_enabled() ){
-        //Split the node, if it is not a leaf it will not be changed
-        pCurrentSubTree->split();
-        //Follow the path step
-        pCurrentSubTree = ( path[position] ? pCurrentSubTree->_pRightNode : pCurrentSubTree->_pLeftNode );
-        //Go to the next path element
-        position ++;
-    }
-    //2. Now we are in the right node of this tree or we have met an enabled node on the path,
-    //   Thus, if this node is not enabled then we go on with adding subTree.
-    if( ! pCurrentSubTree->is_enabled() ){
-        add_enabled( pCurrentSubTree, pOtherSubTree );
-    }
-}
-
-Void BinaryTreeNode::add_enabled( BinaryTreeNode* pToTreeRoot, const BinaryTreeNode* pFromTreeRoot ){
-    if( pToTreeRoot->is_leaf() ){
-        //If we are adding something to a leaf node
-        if( pToTreeRoot->is_enabled() ){
-            //Do nothing, adding to an enabled leaf node (nothing new can be added)
-        } else {
-            if( pFromTreeRoot->is_leaf() ){
-                //If we are adding something to a disabled leaf node
-                if( pFromTreeRoot->is_enabled() ){
-                    //Adding an enabled node: Enable the node of pToTreeRoot
-                    pToTreeRoot->set_enabled();
-                } else {
-                    //Do nothing, adding a disabled leaf node to a disabled leaf node
-                }
-            } else {
-                //Adding a subtree pFromTreeRoot to a disabled leaf node pToTreeRoot
-                //Using copy constructors here, to avoid memory collisions
-                pToTreeRoot->_pLeftNode = new BinaryTreeNode( *pFromTreeRoot->_pLeftNode );
-                pToTreeRoot->_pRightNode = new BinaryTreeNode( *pFromTreeRoot->_pRightNode );
-                //Set the leaf node as unknown, since we do not know what is below
-                pToTreeRoot->set_unknown();
-            }
-        }
-    } else {
-        //If we are adding something to a non-leaf node
-        if( pFromTreeRoot->is_leaf() ){
-            //Adding a leaf to a non-leaf node
-            if( pFromTreeRoot->is_enabled() ){
-                //Make the enabled leaf node
-                pToTreeRoot->make_leaf(true);
-            } else {
-                //Do nothing, adding a disabled node to a sub tree (nothing new can be added)
-            }
-        } else {
-            //Adding a non-leaf node to a non-leaf node, do recursion
-            add_enabled( pToTreeRoot->_pLeftNode, pFromTreeRoot->_pLeftNode );
-            add_enabled( pToTreeRoot->_pRightNode, pFromTreeRoot->_pRightNode );
-        }
-    }
-}
-
-Void BinaryTreeNode::add_enabled( BinaryTreeNode* pRootTreeNode, const BinaryWord& path, const Nat position ) {
-    if( position < path.size() ) {
-        //There is still something to do
-        if( pRootTreeNode->is_leaf() ){
-            if( pRootTreeNode->is_enabled() ) {
-                //This leaf is enabled so adding path will not change anything
-                return;
-            } else {
-                //Split the disabled node
-                pRootTreeNode->split();
-            }
-        }
-        //Go left-right depenting on the specified path
-        add_enabled( ( path[position] ? pRootTreeNode->_pRightNode : pRootTreeNode->_pLeftNode ), path, position + 1 );
-    } else {
-        //We are at the destination node
-        if( pRootTreeNode->is_leaf() ){
-            //Mark the node as enabled
-            pRootTreeNode->set_enabled();
-        } else {
-            //If this is not a leaf node, then make it leaf
-            //The leafs below are not interesting any more
-            pRootTreeNode->make_leaf(true);
-        }
-    }
-}
-
-BinaryTreeNode * BinaryTreeNode::prepend_tree( const BinaryWord & rootNodePath, BinaryTreeNode * oldRootNode){
-    //Create the new binary tree node
-    BinaryTreeNode * pRootBinaryTreeNode = new BinaryTreeNode(), * pCurrentBinaryTreeNode = pRootBinaryTreeNode;
-    Nat i = 0;
-    //Loop until the last path element, because it has to be treated in a different manner
-    for( ; i < ( rootNodePath.size() - 1 ) ; i++ ){
-        //Split the node
-        pCurrentBinaryTreeNode->split();
-        //Move to the appropriate subnode
-        pCurrentBinaryTreeNode = (rootNodePath[i]) ? pCurrentBinaryTreeNode->_pRightNode : pCurrentBinaryTreeNode->_pLeftNode;
-    }
-    //Split the node for the last time
-    pCurrentBinaryTreeNode->split();
-    //Substitute the new primary cell with the one we had before
-    if( rootNodePath[i] ){
-        delete pCurrentBinaryTreeNode->_pRightNode;
-        pCurrentBinaryTreeNode->_pRightNode = oldRootNode;
-    } else {
-        delete pCurrentBinaryTreeNode->_pLeftNode;
-        pCurrentBinaryTreeNode->_pLeftNode = oldRootNode;
-    }
-    return pRootBinaryTreeNode;
-}
-
-Bool BinaryTreeNode::intersect( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo ) {
-    Bool result = false;
-
-    Bool isNodeOneALeaf = pRootNodeOne->is_leaf();
-    Bool isNodeTwoALeaf = pRootNodeTwo->is_leaf();
-
-    if( isNodeOneALeaf && isNodeTwoALeaf ) {
-        //If both nodes are leaves, then the trees overlap if only both of the nodes are enabled
-        result = pRootNodeOne->is_enabled() && pRootNodeTwo->is_enabled();
-    } else {
-        if( ! isNodeOneALeaf && isNodeTwoALeaf ){
-            //If the second node is a leaf then the trees overlap is it is enabled
-            //and the first node has an enabled sub-node
-            result = pRootNodeTwo->is_enabled() && pRootNodeOne->has_enabled();
-        } else {
-            if( isNodeOneALeaf && ! isNodeTwoALeaf ){
-                //If the first node is a leaf then the trees overlap is it is enabled
-                //and the second node has an enabled sub-node
-                result = pRootNodeOne->is_enabled() && pRootNodeTwo->has_enabled();
-            } else {
-                //Both nodes are non-lead nodes, then the trees overlap if
-                //either their left or right branches overlap
-                result = intersect( pRootNodeOne->left_node(), pRootNodeTwo->left_node() ) ||
-                    intersect( pRootNodeOne->right_node(), pRootNodeTwo->right_node() );
-            }
-        }
-    }
-
-    return result;
-}
-
-Bool BinaryTreeNode::subset( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo ) {
-    Bool result = false;
-
-    Bool isNodeOneALeaf = pRootNodeOne->is_leaf();
-    Bool isNodeTwoALeaf = pRootNodeTwo->is_leaf();
-
-    if( isNodeOneALeaf && isNodeTwoALeaf ) {
-        //If both nodes are leaves, then pRootNodeOne is a subset of pRootNodeTwo if:
-        // 1. both of the nodes are enabled or
-        // 2. pRootNodeOne is disabled (represents an empty set)
-        result = ( ! pRootNodeOne->is_enabled() ) || pRootNodeTwo->is_enabled();
-    } else {
-        if( ! isNodeOneALeaf && isNodeTwoALeaf ){
-            //If pRootNodeTwo is a leaf then pRootNodeOne is a subset of pRootNodeTwo if:
-            // 1. pRootNodeTwo is enabled or
-            // 2. pRootNodeOne has no enabled sub-nodes
-            result = pRootNodeTwo->is_enabled() || ( ! pRootNodeOne->has_enabled() );
-        } else {
-            if( isNodeOneALeaf && ! isNodeTwoALeaf ){
-                //If pRootNodeOne is a leaf then pRootNodeOne is a subset of pRootNodeTwo if:
-                // 1. pRootNodeOne is disabled or
-                // 2. all of the pRootNodeTwo's leaf nodes are enabled
-                result = ( ! pRootNodeOne->is_enabled() ) || pRootNodeTwo->all_enabled();
-            } else {
-                //Both nodes are non-lead nodes, then pRootNodeOne is a subset of pRootNodeTwo
-                //if sub-trees of pRootNodeOne are subsets of the subtrees of pRootNodeTwo
-                result = subset( pRootNodeOne->left_node(), pRootNodeTwo->left_node() )
-                         &&
-                         subset( pRootNodeOne->right_node(), pRootNodeTwo->right_node() );
-            }
-        }
-    }
-
-    return result;
-}
-
-}
+/***************************************************************************
+ *            geometry/binary_tree.cpp
+ *
+ *  Copyright  2008-20  Ivan S. Zapreev, Pieter Collins
+ *
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+#include <iostream>
+#include <iomanip>
+
+#include "config.hpp"
+
+#include "function/functional.hpp"
+#include "utility/macros.hpp"
+#include "utility/exceptions.hpp"
+#include "utility/stlio.hpp"
+#include "geometry/list_set.hpp"
+#include "geometry/binary_tree.hpp"
+
+
+namespace Ariadne {
+
+
+Bool BinaryTreeNode::has_enabled() const {
+    if( is_leaf() ) {
+        return is_enabled();
+    } else {
+        return ( left_node()->has_enabled() || right_node()->has_enabled() );
+    }
+}
+
+Bool BinaryTreeNode::all_enabled() const {
+    if( is_leaf() ) {
+        return is_enabled();
+    } else {
+        return ( left_node()->all_enabled() && right_node()->all_enabled() );
+    }
+}
+
+Bool BinaryTreeNode::is_enabled( const BinaryWord & path, const Nat position) const {
+    Bool result = false ;
+
+    if( this->is_leaf() ){
+        //If we are in an enabled leaf node then the answer is true.
+        //Since path.size() >= 0, the node defined by the path is a
+        //subnode of an enabled node, thus we return true.
+        result = is_enabled();
+    } else {
+        if( position < path.size() ) {
+            //The path is not complete yet and we are in a
+            //non-leaf node, so we follow the path in the tree
+            if( path[ position ] ) {
+                result = right_node()->is_enabled( path, position + 1 );
+            } else {
+                result = left_node()->is_enabled( path, position + 1 );
+            }
+        } else {
+            //We are somewhere in the tree in a non-leaf node,
+            //this node corresponds to the node given by the path
+            //If both left and right sub trees are fully enabled,
+            //then the cell defined by the binary path is "enabled"
+            //in this tree otherwise it is not.
+            result = all_enabled();
+        }
+    }
+    return result;
+}
+
+Bool BinaryTreeNode::is_equal_nodes( const BinaryTreeNode * pFirstNode, const BinaryTreeNode * pSecondNode ) {
+    Bool result = true;
+
+    if( pFirstNode != pSecondNode){
+        //If the pointers do not reference the same objects
+        if( ( pFirstNode != nullptr ) && ( pSecondNode != nullptr ) ){
+            //And both nodes are not null
+            if( ! ( (* pFirstNode) == ( * pSecondNode ) ) ){
+                //The objects referenced by the pointers do not contain equal data
+                result = false;
+            }
+        } else {
+            //One of the nodes is null and the other is not
+            result = false;
+        }
+    }
+    return result;
+}
+
+Bool BinaryTreeNode::operator==(const BinaryTreeNode & otherNode ) const {
+    return ( ( definitely(this->_isEnabled == otherNode._isEnabled) ) ||
+             ( is_indeterminate( this->_isEnabled     ) &&
+               is_indeterminate( otherNode._isEnabled ) ) )            &&
+        is_equal_nodes( this->_pLeftNode , otherNode._pLeftNode )   &&
+        is_equal_nodes( this->_pRightNode , otherNode._pRightNode );
+}
+
+Void BinaryTreeNode::restrict( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode ){
+    if( ( pThisNode != nullptr ) && ( pOtherNode != nullptr ) ){
+        if( pThisNode->is_leaf() && pOtherNode->is_leaf() ){
+            //Both nodes are leaf nodes: Make a regular AND
+            pThisNode->_isEnabled = (pThisNode->_isEnabled && pOtherNode->_isEnabled);
+        } else {
+            if( !pThisNode->is_leaf() && pOtherNode->is_leaf() ){
+                if( pOtherNode->is_enabled() ){
+                    //DO NOTHING: The restriction will not affect pThisNode
+                } else {
+                    //Turn the node a disabled leaf, since we do AND with false
+                    pThisNode->make_leaf(false);
+                }
+            } else {
+                if( pThisNode->is_leaf() && !pOtherNode->is_leaf() ){
+                    if( pThisNode->is_enabled() ){
+                        //If this node is enabled then copy in the other node
+                        //Since it will be their intersection any ways
+                        pThisNode->copy_from( pOtherNode );
+                    } else {
+                        //DO NOTHING: The restriction is empty in this case
+                        //because this node is a disabled leaf
+                    }
+                } else {
+                    //Both nodes are non-leaf nodes: Go recursively left and right
+                    restrict( pThisNode->_pLeftNode, pOtherNode->_pLeftNode );
+                    restrict( pThisNode->_pRightNode, pOtherNode->_pRightNode );
+                }
+            }
+        }
+    }
+}
+
+Void BinaryTreeNode::remove( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode ) {
+    if( ( pThisNode != nullptr ) && ( pOtherNode != nullptr ) ){
+        if( pThisNode->is_leaf() && pOtherNode->is_leaf() ){
+            if( pThisNode->is_enabled() && pOtherNode->is_enabled() ){
+                //Both nodes are enabled leaf nodes: Make a regular subtraction, i.e. set the false
+                pThisNode->_isEnabled = false;
+            } else {
+                //DO NOTHING: In all other cases there is nothing to be done
+            }
+        } else {
+            if( !pThisNode->is_leaf() && pOtherNode->is_leaf() ){
+                if( pOtherNode->is_enabled() ){
+                    //Turn the node into a disabled leaf, since we subtract all below
+                    pThisNode->make_leaf(false);
+                } else {
+                    //DO NOTHING: We are trying to remove a disabled node
+                }
+            } else {
+                if( pThisNode->is_leaf() ) {
+                    if( pThisNode->is_enabled() ){
+                        //This is an enabled leaf node and so we might subtract smth from it
+                        //The pOtherNode is not a leaf, due to previous checks so we split
+                        //pThisNode and then do the recursion as in case on two non-leaf nodes
+                        pThisNode->split();
+                    } else {
+                        //DO NOTHING: We are trying to remove from a disabled leaf node. Whatever
+                        //we are trying to remove, will not have any effect on the result. We return
+                        //because in all remaining cases we need to do recursion for sub trees.
+                        return;
+                    }
+                } else {
+                    //We will have to do the recursion to remove the leaf nodes
+                }
+                //Both nodes are non-leaf nodes now: Go recursively left and right
+                remove( pThisNode->_pLeftNode, pOtherNode->_pLeftNode );
+                remove( pThisNode->_pRightNode, pOtherNode->_pRightNode );
+            }
+        }
+    }
+}
+
+Void BinaryTreeNode::restore_node( BinaryTreeNode * pCurrentNode, Nat & arr_index, Nat & leaf_counter,
+                                   const BooleanArray& theTree, const BooleanArray& theEnabledCells) {
+    //If we are not done with the the tree yet
+    if( arr_index < theTree.size() ) {
+        //If we are in a non-leaf node then go further
+        if( theTree[arr_index] ) {
+            pCurrentNode->split();
+            //IVAN S. ZAPREEV:
+            //NOTE: We assume a correct input, i.e. both children are present
+            //NOTE: We increase the arr_index before calling recursion for each
+            //      of the subnodes of the tree
+            restore_node( pCurrentNode->_pLeftNode, ++arr_index, leaf_counter, theTree, theEnabledCells );
+            restore_node( pCurrentNode->_pRightNode, ++arr_index, leaf_counter, theTree, theEnabledCells );
+        } else {
+            //If we are in a leaf node then chek if it needs to be enabled/disabled
+            pCurrentNode->_isEnabled = ValidatedKleenean(theEnabledCells[leaf_counter]);
+
+            leaf_counter++;
+        }
+    }
+}
+
+Void BinaryTreeNode::mince_node(BinaryTreeNode * pCurrentNode, const Nat depth) {
+    //If we need to mince further.
+    if( depth > 0 ){
+        //If the node is present, i.e. the parent is not a disabled node.
+        if( pCurrentNode != nullptr ){
+            //If the current node is not disabled: enabled (leaf) or
+            //indeterminate (non-leaf) then there is a work to do.
+            if( ! pCurrentNode->is_disabled() ){
+                pCurrentNode->split();
+
+                const Nat remaining_depth = depth - 1;
+
+                mince_node( pCurrentNode->_pLeftNode, remaining_depth );
+                mince_node( pCurrentNode->_pRightNode, remaining_depth );
+            }
+        } else {
+            throw std::runtime_error( ARIADNE_PRETTY_FUNCTION );
+        }
+    }
+}
+
+Void BinaryTreeNode::recombine_node(BinaryTreeNode * pCurrentNode) {
+    //Just a safety check
+    if( pCurrentNode != nullptr ){
+        //If it is not a leaf node then it should have both of it's subnodes != nullptr
+        if( ! pCurrentNode->is_leaf() ){
+            BinaryTreeNode * pLeftNode = pCurrentNode->_pLeftNode;
+            BinaryTreeNode * pRightNode = pCurrentNode->_pRightNode;
+
+            //This recursive calls ensure that we do recombination from the bottom up
+            recombine_node( pLeftNode );
+            recombine_node( pRightNode );
+
+            //Do the recombination for the leaf nodes rooted to pCurrentNode
+            if( pLeftNode->is_leaf() && pRightNode->is_leaf() ){
+                if( definitely(pLeftNode->_isEnabled == pRightNode->_isEnabled) ){
+                    //Make it the leaf node with the derived _isEnabled value
+                    pCurrentNode->make_leaf( pLeftNode->_isEnabled );
+                }
+            }
+        }
+    } else {
+        throw std::runtime_error( ARIADNE_PRETTY_FUNCTION );
+    }
+}
+
+Nat BinaryTreeNode::depth() const {
+    //The depth of the sub-tree rooted to this node
+    Nat result;
+
+    if( ! this->is_leaf() ){
+        //If the node is not a leaf, compute the depth of the sub-trees and take the maximum + 1
+        //Note that, both left and right sub-nodes must exist, by to the way we construct the tree
+        result = std::max(this->left_node()->depth(), this->right_node()->depth() ) + 1;
+    } else {
+        //If the node is a leaf then the depth of the sub-tree is zero
+        result = 0;
+    }
+
+    return result;
+}
+
+SizeType BinaryTreeNode::count_enabled_leaf_nodes( const BinaryTreeNode* pNode ) {
+    if(pNode->is_leaf()) {
+        return pNode->is_enabled() ? 1u : 0u;
+    } else {
+        return count_enabled_leaf_nodes(pNode->left_node())
+            + count_enabled_leaf_nodes(pNode->right_node());
+    }
+}
+
+Void BinaryTreeNode::tree_to_binary_words( BinaryWord & tree, BinaryWord & leaves ) const {
+    if( is_leaf() ) {
+        tree.push_back( false );
+        leaves.push_back( definitely( _isEnabled ) );
+    } else {
+        tree.push_back( true );
+        _pLeftNode->tree_to_binary_words( tree, leaves );
+        _pRightNode->tree_to_binary_words( tree, leaves );
+    }
+}
+
+Void BinaryTreeNode::add_enabled( const BinaryTreeNode * pOtherSubTree, const BinaryWord & path ){
+    //1. Locate the node, follow the path until it's end or until we meet an enabled node
+    BinaryTreeNode * pCurrentSubTree = this;
+    Nat position = 0;
+    while( ( position < path.size() ) && ! pCurrentSubTree->is_enabled() ){
+        //Split the node, if it is not a leaf it will not be changed
+        pCurrentSubTree->split();
+        //Follow the path step
+        pCurrentSubTree = ( path[position] ? pCurrentSubTree->_pRightNode : pCurrentSubTree->_pLeftNode );
+        //Go to the next path element
+        position ++;
+    }
+    //2. Now we are in the right node of this tree or we have met an enabled node on the path,
+    //   Thus, if this node is not enabled then we go on with adding subTree.
+    if( ! pCurrentSubTree->is_enabled() ){
+        add_enabled( pCurrentSubTree, pOtherSubTree );
+    }
+}
+
+Void BinaryTreeNode::add_enabled( BinaryTreeNode* pToTreeRoot, const BinaryTreeNode* pFromTreeRoot ){
+    if( pToTreeRoot->is_leaf() ){
+        //If we are adding something to a leaf node
+        if( pToTreeRoot->is_enabled() ){
+            //Do nothing, adding to an enabled leaf node (nothing new can be added)
+        } else {
+            if( pFromTreeRoot->is_leaf() ){
+                //If we are adding something to a disabled leaf node
+                if( pFromTreeRoot->is_enabled() ){
+                    //Adding an enabled node: Enable the node of pToTreeRoot
+                    pToTreeRoot->set_enabled();
+                } else {
+                    //Do nothing, adding a disabled leaf node to a disabled leaf node
+                }
+            } else {
+                //Adding a subtree pFromTreeRoot to a disabled leaf node pToTreeRoot
+                //Using copy constructors here, to avoid memory collisions
+                pToTreeRoot->_pLeftNode = new BinaryTreeNode( *pFromTreeRoot->_pLeftNode );
+                pToTreeRoot->_pRightNode = new BinaryTreeNode( *pFromTreeRoot->_pRightNode );
+                //Set the leaf node as unknown, since we do not know what is below
+                pToTreeRoot->set_unknown();
+            }
+        }
+    } else {
+        //If we are adding something to a non-leaf node
+        if( pFromTreeRoot->is_leaf() ){
+            //Adding a leaf to a non-leaf node
+            if( pFromTreeRoot->is_enabled() ){
+                //Make the enabled leaf node
+                pToTreeRoot->make_leaf(true);
+            } else {
+                //Do nothing, adding a disabled node to a sub tree (nothing new can be added)
+            }
+        } else {
+            //Adding a non-leaf node to a non-leaf node, do recursion
+            add_enabled( pToTreeRoot->_pLeftNode, pFromTreeRoot->_pLeftNode );
+            add_enabled( pToTreeRoot->_pRightNode, pFromTreeRoot->_pRightNode );
+        }
+    }
+}
+
+Void BinaryTreeNode::add_enabled( BinaryTreeNode* pRootTreeNode, const BinaryWord& path, const Nat position ) {
+    if( position < path.size() ) {
+        //There is still something to do
+        if( pRootTreeNode->is_leaf() ){
+            if( pRootTreeNode->is_enabled() ) {
+                //This leaf is enabled so adding path will not change anything
+                return;
+            } else {
+                //Split the disabled node
+                pRootTreeNode->split();
+            }
+        }
+        //Go left-right depenting on the specified path
+        add_enabled( ( path[position] ? pRootTreeNode->_pRightNode : pRootTreeNode->_pLeftNode ), path, position + 1 );
+    } else {
+        //We are at the destination node
+        if( pRootTreeNode->is_leaf() ){
+            //Mark the node as enabled
+            pRootTreeNode->set_enabled();
+        } else {
+            //If this is not a leaf node, then make it leaf
+            //The leafs below are not interesting any more
+            pRootTreeNode->make_leaf(true);
+        }
+    }
+}
+
+BinaryTreeNode * BinaryTreeNode::prepend_tree( const BinaryWord & rootNodePath, BinaryTreeNode * oldRootNode){
+    //With an empty path there is nothing to put above the old root
+    if( rootNodePath.empty() ) { return oldRootNode; }
+    //Create the new binary tree node
+    BinaryTreeNode * pRootBinaryTreeNode = new BinaryTreeNode(), * pCurrentBinaryTreeNode = pRootBinaryTreeNode;
+    Nat i = 0;
+    //Loop until the last path element, because it has to be treated in a different manner
+    for( ; i < ( rootNodePath.size() - 1 ) ; i++ ){
+        //Split the node
+        pCurrentBinaryTreeNode->split();
+        //Move to the appropriate subnode
+        pCurrentBinaryTreeNode = (rootNodePath[i]) ? pCurrentBinaryTreeNode->_pRightNode : pCurrentBinaryTreeNode->_pLeftNode;
+    }
+    //Split the node for the last time
+    pCurrentBinaryTreeNode->split();
+    //Substitute the new primary cell with the one we had before
+    if( rootNodePath[i] ){
+        delete pCurrentBinaryTreeNode->_pRightNode;
+        pCurrentBinaryTreeNode->_pRightNode = oldRootNode;
+    } else {
+        delete pCurrentBinaryTreeNode->_pLeftNode;
+        pCurrentBinaryTreeNode->_pLeftNode = oldRootNode;
+    }
+    return pRootBinaryTreeNode;
+}
+
+Bool BinaryTreeNode::intersect( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo ) {
+    Bool result = false;
+
+    Bool isNodeOneALeaf = pRootNodeOne->is_leaf();
+    Bool isNodeTwoALeaf = pRootNodeTwo->is_leaf();
+
+    if( isNodeOneALeaf && isNodeTwoALeaf ) {
+        //If both nodes are leaves, then the trees overlap if only both of the nodes are enabled
+        result = pRootNodeOne->is_enabled() && pRootNodeTwo->is_enabled();
+    } else {
+        if( ! isNodeOneALeaf && isNodeTwoALeaf ){
+            //If the second node is a leaf then the trees overlap is it is enabled
+            //and the first node has an enabled sub-node
+            result = pRootNodeTwo->is_enabled() && pRootNodeOne->has_enabled();
+        } else {
+            if( isNodeOneALeaf && ! isNodeTwoALeaf ){
+                //If the first node is a leaf then the trees overlap is it is enabled
+                //and the second node has an enabled sub-node
+                result = pRootNodeOne->is_enabled() && pRootNodeTwo->has_enabled();
+            } else {
+                //Both nodes are non-lead nodes, then the trees overlap if
+                //either their left or right branches overlap
+                result = intersect( pRootNodeOne->left_node(), pRootNodeTwo->left_node() ) ||
+                    intersect( pRootNodeOne->right_node(), pRootNodeTwo->right_node() );
+            }
+        }
+    }
+
+    return result;
+}
+
+Bool BinaryTreeNode::subset( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo ) {
+    Bool result = false;
+
+    Bool isNodeOneALeaf = pRootNodeOne->is_leaf();
+    Bool isNodeTwoALeaf = pRootNodeTwo->is_leaf();
+
+    if( isNodeOneALeaf && isNodeTwoALeaf ) {
+        //If both nodes are leaves, then pRootNodeOne is a subset of pRootNodeTwo if:
+        // 1. both of the nodes are enabled or
+        // 2. pRootNodeOne is disabled (represents an empty set)
+        result = ( ! pRootNodeOne->is_enabled() ) || pRootNodeTwo->is_enabled();
+    } else {
+        if( ! isNodeOneALeaf && isNodeTwoALeaf ){
+            //If pRootNodeTwo is a leaf then pRootNodeOne is a subset of pRootNodeTwo if:
+            // 1. pRootNodeTwo is enabled or
+            // 2. pRootNodeOne has no enabled sub-nodes
+            result = pRootNodeTwo->is_enabled() || ( ! pRootNodeOne->has_enabled() );
+        } else {
+            if( isNodeOneALeaf && ! isNodeTwoALeaf ){
+                //If pRootNodeOne is a leaf then pRootNodeOne is a subset of pRootNodeTwo if:
+                // 1. pRootNodeOne is disabled or
+                // 2. all of the pRootNodeTwo's leaf nodes are enabled
+                result = ( ! pRootNodeOne->is_enabled() ) || pRootNodeTwo->all_enabled();
+            } else {
+                //Both nodes are non-lead nodes, then pRootNodeOne is a subset of pRootNodeTwo
+                //if sub-trees of pRootNodeOne are subsets of the subtrees of pRootNodeTwo
+                result = subset( pRootNodeOne->left_node(), pRootNodeTwo->left_node() )
+                         &&
+                         subset( pRootNodeOne->right_node(), pRootNodeTwo->right_node() );
+            }
+        }
+    }
+
+    return result;
+}
+
+}
-- 
2.43.0


From 8562b0abf569aba6b877170117110de141ab1e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:32 +0000
Subject: [PATCH 43/63] fix: copy the cells when cloning a subpaving

---
 source/geometry/grid_paving.cpp | 6246 ++++++++++++++++---------------
 1 file changed, 3124 insertions(+), 3122 deletions(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index dfe910f..1c6a439 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -1,3122 +1,3124 @@
-/***************************************************************************
- *            geometry/grid_paving.cpp
- *
- *  Copyright  2008-20  Ivan S. Zapreev, Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-#include "function/functional.hpp"
-#include "config.hpp"
-
-#include <iostream>
-#include <iomanip>
-
-#include "utility/macros.hpp"
-#include "utility/exceptions.hpp"
-#include "utility/stlio.hpp"
-#include "function/projection.hpp"
-#include "geometry/function_set.hpp"
-#include "geometry/list_set.hpp"
-#include "geometry/grid_paving.hpp"
-#include "geometry/binary_tree.hpp"
-
-#include "geometry/set_interface.hpp"
-
-
-namespace Ariadne {
-
-Bool subset( const GridCell& theCellOne, const GridCell& theCellTwo,
-             BinaryWord * pPathPrefixOne, BinaryWord * pPathPrefixTwo, Nat * pPrimaryCellExtent);
-
-
-//****************************************GridAbstractCell*******************************************/
-
-LatticeBoxType GridAbstractCell::primary_cell_lattice_box( const Nat theExtent, const dimension_type dimensions ) {
-    Int leftBottomCorner = 0, rightTopCorner = 1;
-    //The zero level coordinates are known, so we need to iterate only for higher level primary cells
-    for(Nat i = 1; i <= theExtent; i++){
-        primary_cell_at_extent(i, leftBottomCorner, rightTopCorner);
-    }
-    // 1.2 Constructing and return the box defining the primary cell (relative to the grid).
-
-    return Vector< ExactIntervalType >( dimensions, ExactIntervalType( leftBottomCorner, rightTopCorner ) );
-}
-
-Nat GridAbstractCell::smallest_enclosing_primary_cell_extent( const LatticeBoxType& theLatticeBoxType ) {
-    const dimension_type dimensions = theLatticeBoxType.size();
-    Int leftBottomCorner = 0, rightTopCorner = 1;
-    Nat extent = 0;
-    //The zero level coordinates are known, so we need to iterate only for higher level primary cells
-    do{
-        //Check if the given box is a subset of a primary cell
-        Box< ExactIntervalType > primaryCellBoxType( dimensions, ExactIntervalType( leftBottomCorner, rightTopCorner ) );
-        if(  inside(theLatticeBoxType, primaryCellBoxType ) ) {
-            //If yes then we are done
-            break;
-        }
-        //Otherwise increase the extent and recompute the new borders
-        primary_cell_at_extent( ++extent, leftBottomCorner, rightTopCorner);
-    }while( true );
-
-    return extent;
-}
-
-Nat GridAbstractCell::smallest_enclosing_primary_cell_extent( const UpperBoxType& theBoxType, const Grid& theGrid) {
-    Vector<ExactIntervalType> theLatticeBoxType( theBoxType.size() );
-    //Convert the box to theGrid coordinates
-    for( SizeType i = 0; i != theBoxType.size(); ++i ) {
-        theLatticeBoxType[i] = cast_exact_interval( ( theBoxType[i] - cast_exact(theGrid.origin()[i])) / cast_exact(theGrid.lengths()[i]) );
-    }
-    //Compute and return the smallest primary cell, enclosing this box on the grid
-    return smallest_enclosing_primary_cell_extent( theLatticeBoxType );
-}
-
-ExactBoxType GridAbstractCell::lattice_box_to_space(const LatticeBoxType & theLatticeBoxType, const Grid& theGrid ){
-    const DimensionType dimensions = theGrid.dimension();
-    ExactBoxType theTmpBoxType( dimensions );
-
-    Vector<FloatDP> theGridOrigin( theGrid.origin() );
-    Vector<FloatDP> theGridLengths( theGrid.lengths() );
-
-    for(DimensionType current_dimension = 0; current_dimension < dimensions; current_dimension ++){
-        const FloatDP theDimLength = theGridLengths[current_dimension];
-        const FloatDP theDimOrigin = theGridOrigin[current_dimension];
-        //Recompute the new dimension coordinates, detaching them from the grid
-        //Compute lower and upper bounds separately, and then set the box lower
-        //and upper values simultaneously to prevent lower temporarily higher than upper.
-        FloatDP lower = add(approx, theDimOrigin, mul(approx, theDimLength, theLatticeBoxType[current_dimension].lower_bound() ) );
-        FloatDP upper = add(approx, theDimOrigin, mul(approx, theDimLength, theLatticeBoxType[current_dimension].upper_bound() ) );
-        theTmpBoxType[current_dimension].set_bounds(cast_exact(lower),cast_exact(upper));
-    }
-
-    return theTmpBoxType;
-}
-
-BinaryWord GridAbstractCell::primary_cell_path( const DimensionType dimensions, const Nat topPCellExtent, const Nat bottomPCellExtent) {
-    BinaryWord theBinaryPath;
-
-    //The path from one primary cell to another consists of alternating subsequences
-    //of length \a dimensions. These subsequences consist either of ones or zeroes.
-    //Odd primary cell extent means that the first subsequence will consist of all
-    //ones. Even primary cell extent indicates the the first subsequence will consis
-    //of all zeroes. This is due to the way we do the space subdivisions.
-    if( topPCellExtent > bottomPCellExtent ){
-
-        for( Nat i = topPCellExtent; i > bottomPCellExtent; i-- ){
-            Bool odd_extent = (i % 2) != 0;
-            for( Nat j = 0; j < dimensions; j++ ){
-                theBinaryPath.push_back( odd_extent );
-            }
-        }
-    }
-
-    return theBinaryPath;
-}
-
-//TODO: Perhaps we can make it more efficient by reducing the extent of the words till
-//the minimal primary cell extent and then comparing them by extent and binary words
-Bool GridAbstractCell::compare_abstract_grid_cells(const GridAbstractCell * pCellLeft, const GridAbstractCell &cellRight, const Nat comparator ) {
-    ARIADNE_ASSERT( pCellLeft->_theGrid == cellRight._theGrid );
-    const BinaryWord * pThisWord, * pOtherWord;
-    //This is the temporary word to be used if extents are not equal
-    BinaryWord rootNodePath;
-
-    if( pCellLeft->_theExtent == cellRight._theExtent ) {
-        //if the primary cells are of the same extent, then we just compare the original binary words.
-        pThisWord = & (pCellLeft->_theWord);
-        pOtherWord = & (cellRight._theWord);
-    } else {
-        //Otherwise we have to re-root the cell with the lowest primary cell
-        //to the highest primary cell and then compare the words again,
-        if( pCellLeft->_theExtent > cellRight._theExtent ){
-            rootNodePath = primary_cell_path( pCellLeft->_theGrid.dimension() , pCellLeft->_theExtent, cellRight._theExtent );
-            rootNodePath.append( cellRight._theWord );
-            pThisWord = & (pCellLeft->_theWord);
-            pOtherWord = & (rootNodePath);
-        } else {
-            rootNodePath = primary_cell_path( pCellLeft->_theGrid.dimension() , cellRight._theExtent, pCellLeft->_theExtent );
-            rootNodePath.append( pCellLeft->_theWord );
-            pThisWord = & (rootNodePath);
-            pOtherWord = & (cellRight._theWord);
-        }
-    }
-    switch( comparator ){
-        case COMPARE_EQUAL : return (*pThisWord) == (*pOtherWord);
-        case COMPARE_LESS : return (*pThisWord) < (*pOtherWord);
-        default:
-            throw InvalidInput("The method's comparator argument should be either GridAbstractCell::COMPARE_EQUAL or GridAbstractCell::COMPARE_LESS.");
-    }
-}
-
-//********************************************GridCell***********************************************/
-
-GridCell GridCell::split(Bool isRight) const {
-    BinaryWord theWord = _theWord;
-    theWord.push_back( isRight );
-    return GridCell( _theGrid, _theExtent, theWord);
-}
-
-Pair<GridCell,GridCell> GridCell::split() const {
-    BinaryWord theLeftWord = _theWord;
-    theLeftWord.push_back( false );
-    BinaryWord theRightWord = _theWord;
-    theRightWord.push_back( true );
-    return std::make_pair(GridCell( _theGrid, _theExtent, theLeftWord),GridCell( _theGrid, _theExtent, theRightWord));
-}
-
-GridCell GridCell::smallest_enclosing_primary_cell( const UpperBoxType& theBoxType, const Grid& theGrid) {
-    //Create the GridCell, corresponding to the smallest primary cell, enclosing this box
-    return GridCell( theGrid, smallest_enclosing_primary_cell_extent(theBoxType, theGrid), BinaryWord() );
-}
-
-class BinaryCode {
-    Nat _height;
-    BinaryWord _word;
-  public:
-    BinaryCode(Nat tree_height, BinaryWord word) : _height(tree_height), _word(word) { } //assert(word.size()>=height); }
-    bool operator[](Int i) { return _word[static_cast<Nat>(i+static_cast<Int>(_height))]; }
-    friend OutputStream& operator<<(OutputStream& os, BinaryCode const& bc) {
-        for (SizeType i=0; i!=bc._word.size(); ++i) {
-            if (i==bc._height) { os << '.'; } os << (short)bc._word[i];
-        }
-        return os;
-    }
-    Array<BinaryCode> split(DimensionType dim) {
-        assert(_height % dim==0);
-        Array<BinaryCode> codes(dim, BinaryCode(_height/dim,BinaryWord()));
-        DimensionType k=0;
-        for (SizeType i=0; i!=_word.size(); ++i) {
-            codes[k]._word.append(this->_word[i]);
-            k=(k+1) % dim;
-        }
-        return codes;
-    }
-};
-
-//Computes the box corresponding the the cell defined by the primary cell and the binary word.
-//The resulting box is not relaterd to the original space, but is a lattice box.
-// 1. Compute the primary cell located the the extent \a theExtent above the zero level,
-// 2. Compute the cell defined by the path \a theWord (from the primary cell).
-LatticeBoxType GridCell::compute_lattice_box( const DimensionType dimensions, const Nat theExtent, const BinaryWord& theWord ) {
-    LatticeBoxType theResultLatticeBoxType( primary_cell_lattice_box( theExtent , dimensions ) );
-
-    //2. Compute the cell on some grid, corresponding to the binary path from the primary cell.
-    SizeType current_dimension = 0;
-    for(SizeType i = 0; i < theWord.size(); i++){
-        //We move through the dimensions in a linear fasshion
-        current_dimension = i % dimensions;
-        //Compute the middle point of the box's projection onto
-        //the dimension \a current_dimension (relative to the grid)
-        FloatDP middlePointInCurrDim = theResultLatticeBoxType[current_dimension].midpoint();
-        if( theWord[i] ){
-            //Choose the right half
-            theResultLatticeBoxType[current_dimension].set_lower_bound( cast_exact(middlePointInCurrDim) );
-        } else {
-            //Choose the left half
-            theResultLatticeBoxType[current_dimension].set_upper_bound( cast_exact(middlePointInCurrDim) );
-        }
-    }
-    return theResultLatticeBoxType;
-}
-
-GridCell raise_to_level(GridCell gc, Nat level) {
-    assert(gc.root_extent()<=level);
-    DimensionType n=gc.dimension();
-    BinaryWord w;
-    for (SizeType l=level; l!=gc.root_extent(); --l) {
-        for (DimensionType j=0; j!=n; ++j) {
-            w.append(l%2);
-        }
-    }
-    w.append(gc.word());
-    return GridCell(gc.grid(),level,w);
-}
-
-
-
-//This method appends \a dimension() zeroes to the binary word defining this cell
-//and return a GridOpenCell created with the given grid, primany cell extent and
-//the newly created word for the low-left cell of the open cell
-GridOpenCell GridCell::interior() const {
-    BinaryWord theOpenCellWord = _theWord;
-    for( SizeType i = 0; i < _theGrid.dimension(); i++) {
-        theOpenCellWord.push_back(false);
-    }
-    //The open cell will be defined by the given new word, i.e. the path to the
-    //left-bottom sub-quadrant cell but the box and the rest will be the same
-    return GridOpenCell( _theGrid, _theExtent, theOpenCellWord, _theBoxType );
-}
-
-//NOTE: The cell defined byt the method's arguments is called the base cell.
-//NOTE: Here we work with the lattice boxes that are in the grid
-GridCell GridCell::neighboringCell( const Grid& theGrid, const Nat theExtent, const BinaryWord& theWord, const DimensionType dim ) {
-    const DimensionType dimensions = theGrid.dimension();
-    //1. Extend the base cell in the given dimension (dim) by it's half width. This way
-    //   we are sure that we get a box that overlaps with the required neighboring cell.
-    //NOTE: This box is in the original space, but not on the lattice
-    Box<ExactIntervalType> baseCellBoxInLattice =  GridCell::compute_lattice_box( dimensions, theExtent, theWord );
-    const FloatDP upperBorderOverlapping = add(approx, baseCellBoxInLattice[dim].upper_bound(), hlf( baseCellBoxInLattice[dim].width().value_raw() ) );
-
-    //2. Now check if the neighboring cell can be rooted to the given primary cell. For that
-    //   we simply use the box computed in 1. and get the primary cell that encloses it.
-    //NOTE: In fact, we only need to take about the upper border, because the lower border does not change.
-    Int leftBottomCorner = 0, rightTopCorner = 1; Nat extent = 0;
-    do{
-        if( upperBorderOverlapping <= rightTopCorner ) {
-            //As soon as we fall into the primary cell we are done
-            break;
-        }
-        //Otherwise increase the extent and recompute the new borders
-        primary_cell_at_extent( ++extent, leftBottomCorner, rightTopCorner);
-    } while(true);
-
-    //3. If it can not then we take the lowest required primary cell to root this cell to and
-    //   to re-route the given base cell of GridOpenCell to that one.
-    Nat theBaseCellExtent = theExtent;
-    BinaryWord theBaseCellWord = theWord;
-    if( extent > theBaseCellExtent ) {
-        //If we need a higher primary cell then extend the extent and the word for the case cell
-        theBaseCellWord = primary_cell_path( dimensions, extent, theBaseCellExtent );
-        theBaseCellWord.append( theWord );
-        theBaseCellExtent = extent;
-    }
-
-    //4. We need to start from the end of the new (extended) word representing the base cell. Then
-    //   we go backwards and look for the smallest cell such that the upper border computed in 1.
-    //   is less than the cell's box upper border (in the given dimension). This is indicated by incountering
-    //   the first zero in the path to the base cell in dimension dim from the end of the path
-    SizeType position = theBaseCellWord.size() - 1;
-    while(true) {
-        //Only consider the dimension that we need and look for the first opotrunity to invert the path suffix.
-        if( ( position % dimensions == dim ) && !theBaseCellWord[position] ) {
-            break;
-        }
-        if (position == 0)
-            break;
-        position--;
-    }
-
-    //5. When this entry in the word is found from that point on we have to inverse the path in such
-    //   a way that every component in the dimension from this point till the end of the word is
-    //   inverted. This will provide us with the path to the neighborind cell in the given dimension
-    for(SizeType index = position; index < theBaseCellWord.size(); index++){
-        if( index % dimensions == dim ) {
-            //If this element of the path corresponds to the needed dimension then we need to invert it
-            theBaseCellWord[index] = !theBaseCellWord[index];
-        }
-    }
-
-    return GridCell( theGrid, theBaseCellExtent, theBaseCellWord );
-}
-
-DimensionType GridCell::dimension() const {
-    return this->grid().dimension();
-}
-
-//************************************FRIENDS OF GridCell*****************************************/
-
-Bool subset(const GridCell& theCellOne, const GridCell& theCellTwo, BinaryWord * pPathPrefixOne, BinaryWord * pPathPrefixTwo, Nat *pPrimaryCellExtent ) {
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theCellOne.grid() == theCellTwo.grid() );
-
-    //Test that the binary words are empty, otherwise the results of computations are undefined
-    Bool isDefault = false;
-    if( ( pPathPrefixOne == nullptr ) && ( pPathPrefixTwo == nullptr ) ) {
-        //If both parameters are null, then the user does not
-        //need this data, so we allocate tepmorary objects
-        pPathPrefixOne = new BinaryWord();
-        pPathPrefixTwo = new BinaryWord();
-        isDefault = true;
-    } else {
-        if( ( pPathPrefixOne == nullptr ) || ( pPathPrefixTwo == nullptr ) ) {
-            //TODO: Find some better way to notify the user that
-            //only one of the required pointers is not nullptr.
-            ARIADNE_ASSERT( false );
-        } else {
-            //DO NOTHING: Both parameters are not nullptr, so it
-            //is user data and isDefault should stay false.
-        }
-    }
-
-    //Check if theCellOne is a subset of theCellTwo:
-
-    //01 Align the cell's primary cells by finding path prefixes
-    Nat primary_cell_extent;
-    if( theCellOne.root_extent() < theCellTwo.root_extent() ) {
-        primary_cell_extent = theCellTwo.root_extent();
-        pPathPrefixOne->append( GridCell::primary_cell_path( theCellOne.grid().dimension(), theCellTwo.root_extent(), theCellOne.root_extent() ) );
-    } else {
-        primary_cell_extent = theCellOne.root_extent();
-        if( theCellOne.root_extent() > theCellTwo.root_extent() ){
-            pPathPrefixTwo->append( GridCell::primary_cell_path( theCellOne.grid().dimension(), theCellOne.root_extent(), theCellTwo.root_extent() ) );
-        } else {
-            //DO NOTHING: The cells are rooted to the same primary cell
-        }
-    }
-    if( pPrimaryCellExtent != nullptr ){
-        *pPrimaryCellExtent = primary_cell_extent;
-    }
-
-    //02 Add the rest of the paths to the path prefixes to get the complete paths
-    pPathPrefixOne->append( theCellOne.word() );
-    pPathPrefixTwo->append( theCellTwo.word() );
-
-    //03 theCellOne is a subset of theCellTwo if pathPrefixTwo is a prefix of pathPrefixOne
-    Bool result = pPathPrefixTwo->is_prefix( *pPathPrefixOne );
-
-    //04 If working with default parameters, then release memory
-    if( isDefault ) {
-        delete pPathPrefixOne;
-        delete pPathPrefixTwo;
-    }
-
-    return result;
-}
-
-OutputStream& operator<<(OutputStream& os, const GridCell& gridPavingCell){
-    //Write the grid data to the string stream
-    return os << "GridCell( " << gridPavingCell.grid() <<
-        ", Primary cell extent: " << gridPavingCell.root_extent() <<
-        ", Path from the root: " << gridPavingCell.word() <<
-        ", ExactBoxType: " << gridPavingCell.box() << " )";
-}
-
-
-//********************************************GridOpenCell******************************************/
-
-//NOTE: In this method first works with the boxes on the lattice, to make
-//      computation exact, and then maps them to the original space.
-ExactBoxType GridOpenCell::compute_box(const Grid& theGrid, const Nat theExtent, const BinaryWord& theWord) {
-    Box<ExactIntervalType> baseCellBoxInLattice =  GridCell::compute_lattice_box( theGrid.dimension(), theExtent, theWord );
-    ExactBoxType openCellBoxInLattice( theGrid.dimension() );
-
-    //Go through all the dimensions, and double the box size in the positive axis direction.
-    for( DimensionType dim = 0; dim < theGrid.dimension(); dim++){
-        ExactIntervalType openCellBoxInLatticeDimIntervalType;
-        ExactIntervalType baseCellBoxInLatticeDimIntervalType = baseCellBoxInLattice[dim];
-        FloatDP lower = baseCellBoxInLatticeDimIntervalType.lower_bound();
-        FloatDP upper = add( near, baseCellBoxInLatticeDimIntervalType.upper_bound(),
-                             sub( near, baseCellBoxInLatticeDimIntervalType.upper_bound(),
-                                        baseCellBoxInLatticeDimIntervalType.lower_bound() ) );
-        openCellBoxInLatticeDimIntervalType.set_bounds(cast_exact(lower),cast_exact(upper));
-
-        openCellBoxInLattice[dim] = openCellBoxInLatticeDimIntervalType;
-    }
-
-    return lattice_box_to_space( openCellBoxInLattice, theGrid );
-}
-
-GridOpenCell GridOpenCell::split(TernaryChild child) const {
-    BinaryWord theNewBaseCellPath = _theWord;
-    Nat theNewPrimaryCellExtent;
-    if( child == TernaryChild::MIDDLE ) {
-        //Return the middle open cell (child == TernaryChild::MIDDLE)
-        theNewBaseCellPath.push_back( true );
-        theNewPrimaryCellExtent = _theExtent;
-    } else {
-        if( child == TernaryChild::RIGHT ) {
-            //Return the right-most open cell (child == TernaryChild::RIGHT)
-            //1. First determine in which dimention we are going to split
-            //NOTE: We use theNewBaseCellPath.size() but not theNewBaseCellPath.size()-1 because
-            //we want to determine the dimension in which will be the next split, but not the
-            //dimension in which we had the last split.
-            const DimensionType dim = theNewBaseCellPath.size() % _theGrid.dimension();
-            //2. Then get the neighboring cell in this dimension
-            GridCell neighboringCell = GridCell::neighboringCell( _theGrid, _theExtent, theNewBaseCellPath, dim );
-            //3. Get the neighboring's cell extent and word, because extent might change
-            theNewBaseCellPath = neighboringCell.word();
-            theNewPrimaryCellExtent = neighboringCell.root_extent();
-            //4. Take the left half of the new base cell
-            theNewBaseCellPath.push_back( false );
-        } else {
-            //Return the left-most open cell (child == TernaryChild::LEFT)
-            theNewBaseCellPath.push_back( false );
-            theNewPrimaryCellExtent = _theExtent;
-        }
-    }
-
-    //Construct the new open cell and return it
-    return GridOpenCell( _theGrid, theNewPrimaryCellExtent, theNewBaseCellPath );
-}
-
-GridOpenCell * GridOpenCell::smallest_open_subcell( const GridOpenCell &theOpenCell, const ExactBoxType & theBoxType ) {
-    GridOpenCell * pSmallestOpenCell = nullptr;
-    //If the box of the givel open cell covers the given box
-    if( definitely( theOpenCell.box().covers( theBoxType ) ) ) {
-        //First check the left sub cell
-        pSmallestOpenCell = smallest_open_subcell( theOpenCell.split( TernaryChild::LEFT ), theBoxType );
-        if( pSmallestOpenCell == nullptr ) {
-            //If the left sub cell does not cover theBoxType then check the middle sub cell
-            pSmallestOpenCell = smallest_open_subcell( theOpenCell.split( TernaryChild::MIDDLE ), theBoxType );
-            if( pSmallestOpenCell == nullptr ) {
-                //If the middle sub cell does not cover the box then check the right subcell
-                pSmallestOpenCell = smallest_open_subcell( theOpenCell.split( TernaryChild::RIGHT ), theBoxType );
-                if( pSmallestOpenCell == nullptr ) {
-                    //If the right sub cell does not cover the box then the open cell
-                    //theOpenCell is the smallest GridOpenCell covering theBoxType.
-                    pSmallestOpenCell = new GridOpenCell( theOpenCell.grid(), theOpenCell.root_extent(),
-                                                          theOpenCell.word(), theOpenCell.box() );
-                }
-            }
-        }
-    }
-
-    //Return the result, is null If the box of theOpenCell does not cover the given box
-    return pSmallestOpenCell;
-}
-
-GridOpenCell GridOpenCell::outer_approximation( const ExactBoxType & theBoxType, const Grid& theGrid ) {
-    //01. First we find the smallest primary GridCell that contain the given ExactBoxType.
-    GridCell thePrimaryCell = GridCell::smallest_enclosing_primary_cell( theBoxType, theGrid );
-
-    //02. Second we start subdividing it to find out the root cell for the smallest open cell containing theBoxType
-    //NOTE: smallest_open_subcell returns nullptr or a pointer to new open cell, but here we are sure that
-    //we can not get nullptr because of the choice of thePrimaryCell, therefore we do the following:
-    GridOpenCell * pOpenCell = GridOpenCell::smallest_open_subcell( thePrimaryCell.interior(), theBoxType );
-    GridOpenCell theOpenCell = (* pOpenCell); delete pOpenCell; //Deallocate the memory, to avoid the memory leaks
-    return theOpenCell;
-}
-
-GridTreePaving GridOpenCell::closure() const {
-    //01. First we compute the extent of the primary cell that encloses the given open cell
-    const Nat newExtent = smallest_enclosing_primary_cell_extent( _theBoxType, _theGrid );
-
-    //02. Re-route (if needed) the base cell to the new primary cell
-    Nat theBaseCellExtent = _theExtent;
-    BinaryWord theBaseCellWord = _theWord;
-    //If we need a higher primary cell then extend the extent and the word for the base cell
-    if( newExtent > theBaseCellExtent ) {
-        theBaseCellWord = primary_cell_path( _theGrid.dimension(), newExtent, theBaseCellExtent );
-        theBaseCellWord.append( _theWord );
-        theBaseCellExtent = newExtent;
-    }
-
-    //03. Allocate the resulting GridTreeSet with the root at the needed extent
-    GridTreePaving theResultSet( _theGrid, theBaseCellExtent, new BinaryTreeNode( false ) );
-
-    //04. The preparations are done, now we need to add the base cell to the
-    //    resulting GridTreeSet and to compute and add the other neighboring cells.
-    BinaryWord tmpWord;
-    neighboring_cells( theResultSet.root_cell().root_extent(), theBaseCellWord, tmpWord, theResultSet );
-
-    return theResultSet;
-}
-
-Void GridOpenCell::neighboring_cells( const Nat theExtent, const BinaryWord& theBaseCellWord,
-                                      BinaryWord& cellPosition, GridTreePaving& theResultSet ) const {
-    if( cellPosition.size() < _theGrid.dimension() ) {
-        //Choose the left direction in the current dimension
-        cellPosition.push_back( false );
-        GridOpenCell::neighboring_cells( theExtent, theBaseCellWord, cellPosition, theResultSet );
-        cellPosition.pop_back( );
-        //Choose the right direction in the current dimension
-        cellPosition.push_back( true );
-        GridOpenCell::neighboring_cells( theExtent, theBaseCellWord, cellPosition, theResultSet );
-        cellPosition.pop_back( );
-    } else {
-        //We have constructed the cell position relative to the base cell
-        //for the case of _theGrid.dimension() dimensional space, now it
-        //is time to compute this cell and add it to theResultSet
-        theResultSet.adjoin( GridOpenCell::neighboring_cell( _theGrid, theExtent, theBaseCellWord, cellPosition ) );
-    }
-}
-
-GridCell GridOpenCell::neighboring_cell( const Grid& theGrid, const Nat theExtent,
-                                         const BinaryWord& theBaseCellWord, BinaryWord& cellPosition ) {
-    const SizeType num_dimensions = theGrid.dimension();
-    //01. Allocate the Array of size _theGrid.dimensions() in which we will store
-    //    the position in the path theBaseCellWord, for each dimension, from which on
-    //    we need to inverse the path to get the proper neighboring cell.
-    Vector<SizeType> invert_position(num_dimensions);
-    const SizeType NO_INVERSE_POSITION = static_cast<SizeType>(theBaseCellWord.size());
-    //Initialize the Array with NO_INVERSE_POSITION to make sure that the inversion positions
-    //for the dimensions that are not set to one in cellPosition will be undefined. Also,
-    //count the required number of iverse dimensions
-    SizeType inverseDimensionsNumericType = 0;
-    for( SizeType i = 0; i < num_dimensions; i++ ) {
-        invert_position[i] = NO_INVERSE_POSITION;
-        inverseDimensionsNumericType = inverseDimensionsNumericType + cellPosition[i];
-    }
-
-    //02. Create the path to the neighboring cell and initialize it with the path to the base cell
-    BinaryWord theNeighborCellWord = theBaseCellWord;
-
-    //03. We need to start from the end of the new (extended) word representing the base cell. Then
-    //    we go backwards and, for each dimension in which we need to move from the base cell, look
-    //    for the first zero in the path. This position, for each dimension, will indicate the path
-    //    suffix which has to be inverted to get the neighboring cell defined by cellPosition
-    SizeType firstInversePosition = NO_INVERSE_POSITION;
-    if( inverseDimensionsNumericType > 0 ) {
-        //If there is a need to do inverses, i.e. we are not adding the base cell itself
-        SizeType foundNumericTypeOfInverses = 0;
-        SizeType position = theNeighborCellWord.size() - 1u;
-        while(true) {
-            //Only consider the dimension that we need and look for the first opotrunity to invert the path suffix.
-            SizeType dimension = position % num_dimensions;
-            //If we need to inverse in this dimension and this is the first found position in
-            //this dimension from which on we should inverse then save the position index.
-            if( cellPosition[ dimension ] && !theNeighborCellWord[ position ] &&
-                ( invert_position[ dimension ] == NO_INVERSE_POSITION ) ) {
-                invert_position[ dimension ] = position;
-                //Since it will typically be the case the the binary word to the base cell will be
-                //longer than the number of dimensions, we also find the first inverse positions.
-                if( position < firstInversePosition ) {
-                    firstInversePosition = position;
-                }
-                //Incremenet the number of fount inverses and check if this is all we need, if yes then break
-                foundNumericTypeOfInverses++;
-                if( foundNumericTypeOfInverses == inverseDimensionsNumericType ) {
-                    break;
-                }
-            }
-            if (position == 0) break;
-            position--;
-        }
-    }
-
-    //04. Since now all the inversion positions are found, we need to go through the path again and
-    //    inverse it in the needed dimesnions starting from (corresponding) the found positions on.
-    //    This will provide us with the path to the neighborind cell in the given dimension
-    for( SizeType index = firstInversePosition; index < theNeighborCellWord.size(); index++ ) {
-        SizeType dimension = index % num_dimensions;
-        if( cellPosition[ dimension ] && ( index >= invert_position[ dimension ] ) ) {
-            theNeighborCellWord[index] = !theNeighborCellWord[index];
-        }
-    }
-
-    return GridCell( theGrid, theExtent, theNeighborCellWord );
-}
-
-Void GridOpenCell::cover_cell_and_borders( const GridCell& theCell, const GridTreePaving& theSet,
-                                  BinaryWord& cellPosition, std::vector<GridOpenCell>& result ) {
-    const SizeType num_dimensions = theCell.grid().dimension();
-    if( cellPosition.size() < num_dimensions ) {
-        //Choose the left direction in the current dimension
-        cellPosition.push_back( false );
-        cover_cell_and_borders( theCell, theSet, cellPosition, result );
-        cellPosition.pop_back( );
-        //Choose the right direction in the current dimension
-        cellPosition.push_back( true );
-        cover_cell_and_borders( theCell, theSet, cellPosition, result );
-        cellPosition.pop_back( );
-    } else {
-        //We have constructed the cell position relative to the base cell
-        //for the case of _theGrid.dimension() dimensional space, now it
-        //is time to compute this cell and add it to result
-        GridCell neighborCell = GridOpenCell::neighboring_cell( theCell.grid(), theCell.root_extent(), theCell.word(), cellPosition );
-        //Check if the found neighboring cell is in theSet
-        if( theSet.binary_tree()->is_enabled( neighborCell.word() ) ) {
-            //So this cell is the enabled neighbor of theCell therefore we need to cover the boundary
-            BinaryWord coverCellBaseWord = theCell.word();
-            //Take the given word theCell.word() and then add the directions from the cellPosition
-            //The latter start from the first axis till the last one, but the path in coverCellBaseWord
-            //currently ends at some other axis so we need to align them when appending cellPosition
-            for( SizeType i = 0; i < num_dimensions ; i++ ) {
-                coverCellBaseWord.push_back( cellPosition[ coverCellBaseWord.size() % num_dimensions ] );
-            }
-            //Add the resulting cover cell
-            result.push_back( GridOpenCell( theCell.grid(), theCell.root_extent(), coverCellBaseWord ) );
-        }
-    }
-}
-
-List<GridOpenCell> GridOpenCell::intersection( const GridOpenCell & theLeftOpenCell, const GridOpenCell & theRightOpenCell ) {
-    List<GridOpenCell> result;
-
-    //01 First check if one open cell is a subset of another open cell or if they overlap
-    if( definitely( theLeftOpenCell.box().covers( theRightOpenCell.box() ) ) ) {
-            //If theRightOpenCell is a subset of theLeftOpenCell
-        result.push_back( theRightOpenCell );
-    } else {
-        if( definitely( theRightOpenCell.box().covers( theLeftOpenCell.box() ) ) ) {
-            //If theLeftOpenCell is a subset of theRightOpenCell
-            result.push_back( theLeftOpenCell );
-        } else {
-            if( definitely( theRightOpenCell.box().overlaps( theLeftOpenCell.box() ) ) ) {
-                //02 If the open cells overlap then let us get the cells contained by the two open cells
-                GridTreePaving theLeftCellSet = theLeftOpenCell.closure();
-                GridTreePaving theRightCellSet = theRightOpenCell.closure();
-
-                //03 Then we compute their intersection
-                GridTreePaving intersectionSet = Ariadne::intersection( theLeftCellSet, theRightCellSet );
-                //NOTE: It seems to me there is no need to recombine the resulting set, it will not reduce anything
-
-                //04 Iterate through all the cells in the intersection and first add their interiors to the resulting set, second
-                //check if the two cells have common border and/or vertex and if they do then add extra open cells, lying withing
-                //the intersection and covering the common border and/or vertex.
-                for ( GridTreeSubpaving::ConstIterator it = intersectionSet.begin(), end = intersectionSet.end(); it != end; it++) {
-                    //Cover the interior of the cell and the borders with the cells bordered with
-                    //the given one in each  positive direction in each dimension. The borders
-                    //are covered only if the neighboring cell is also in the intersection set.
-                    BinaryWord tmpWord;
-                    cover_cell_and_borders( (*it), intersectionSet, tmpWord, result );
-                }
-            }
-        }
-    }
-
-    return result;
-}
-
-//***************************************FRIENDS OF GridOpenCell*******************************************/
-
-OutputStream& operator<<(OutputStream& os, const GridOpenCell& theGridOpenCell ) {
-    //Write the grid data to the string stream
-    return os << "GridOpenCell( " << theGridOpenCell.grid() <<
-        ", Primary cell extent: " << theGridOpenCell.root_extent() <<
-        ", Base cell path: " << theGridOpenCell.word() <<
-        ", ExactBoxType (closure): " << theGridOpenCell.box() << " )";
-}
-
-
-
-//*******************************************GridTreeCursor***************************************/
-
-GridTreeCursor::GridTreeCursor( ) :
-    _currentStackIndex(-1), _pSubPaving(0), _theCurrentGridCell( Grid(), 0, BinaryWord() ) {
-}
-
-GridTreeCursor::GridTreeCursor(const GridTreeCursor & otherCursor) :
-    _currentStackIndex(otherCursor._currentStackIndex), _theStack(otherCursor._theStack),
-    _pSubPaving(otherCursor._pSubPaving), _theCurrentGridCell(otherCursor._theCurrentGridCell){
-}
-
-GridTreeCursor& GridTreeCursor::operator=(const GridTreeCursor & otherCursor) {
-    _currentStackIndex = otherCursor._currentStackIndex;
-    _theStack = otherCursor._theStack;
-    _pSubPaving = otherCursor._pSubPaving;
-    _theCurrentGridCell = otherCursor._theCurrentGridCell;
-
-    return *this;
-}
-
-GridTreeCursor::GridTreeCursor(const GridTreeSubpaving * pSubPaving) :
-    _currentStackIndex(-1), _pSubPaving(pSubPaving), _theCurrentGridCell( pSubPaving->root_cell() ) {
-    //Remember that GridTreeSubset contains GridCell
-
-    //Add the current node to the stack, since we are in it
-
-    //IVAN S ZAPREEV:
-    //NOTE: There is no need in allocating _theStack elements,
-    //it is all done in the push method
-    push(pSubPaving->_pRootTreeNode);
-}
-
-GridTreeCursor::~GridTreeCursor() {
-    //IVAN S ZAPREEV:
-    //WARNING: The subpaving should not be deallocated here!
-    //There are no other data feels that we need to deallocate
-    _pSubPaving = nullptr;
-}
-
-inline Void GridTreeCursor::push( BinaryTreeNode* pLatestNode ){
-    //If we are out of free space, increase the Array's capacity
-    if( static_cast<SizeType>(_currentStackIndex +1) == ( _theStack.size()  ) ){
-        _theStack.resize( _theStack.size() + STACK_SIZE_INCREMENT );
-    }
-
-    //The index for the tree node to be added
-    _currentStackIndex += 1;
-
-    //Put the tree node pointer into the stack
-    _theStack[static_cast<SizeType>(_currentStackIndex)] = pLatestNode;
-
-}
-
-inline BinaryTreeNode* GridTreeCursor::pop( ){
-    BinaryTreeNode* pLastNode = nullptr;
-
-    //If there are non-root nodes in the stack
-    if( _currentStackIndex > 0 ){
-        //Return the stack element at _currentStackIndex,
-        //then decrement the current element's index (here inverted in order)
-        _currentStackIndex--;
-        return _theStack[ static_cast<SizeType>(_currentStackIndex+1) ];
-    }
-
-    return pLastNode;
-}
-
-Bool GridTreeCursor::is_at_the_root() const {
-    //If we are pointing at the zero cell of the Array then it
-    //means that we are in the root of the tree
-    return (_currentStackIndex == 0);
-}
-
-Bool GridTreeCursor::is_enabled() const {
-    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->is_enabled();
-}
-
-Bool GridTreeCursor::is_disabled() const {
-    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->is_disabled();
-}
-
-Bool GridTreeCursor::is_leaf() const {
-    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->is_leaf();
-}
-
-Bool GridTreeCursor::is_root() const {
-    return  is_at_the_root();
-}
-
-Void GridTreeCursor::set_enabled() const {
-    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->set_enabled();
-}
-
-Void GridTreeCursor::set_disabled() const {
-    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->set_disabled();
-}
-
-Bool GridTreeCursor::is_left_child() const{
-    //If there is a parent node and the given node is it's left child
-    return ( _currentStackIndex > 0 ) && ( _theStack[ static_cast<SizeType>(_currentStackIndex - 1) ]->left_node() == _theStack[ static_cast<SizeType>(_currentStackIndex) ] );
-}
-
-Bool GridTreeCursor::is_right_child() const{
-    //If there is a parent node and the given node is it's right child
-    return ( _currentStackIndex > 0 ) && ( _theStack[ static_cast<SizeType>(_currentStackIndex - 1) ]->right_node() == _theStack[ static_cast<SizeType>(_currentStackIndex) ] );
-}
-
-GridTreeCursor& GridTreeCursor::move_up() {
-    return move(BinaryTreeDirection::UP);
-}
-
-GridTreeCursor& GridTreeCursor::move_left() {
-    return move(BinaryTreeDirection::LEFT);
-}
-
-GridTreeCursor& GridTreeCursor::move_right() {
-    return move(BinaryTreeDirection::RIGHT);
-}
-
-inline Void GridTreeCursor::updateTheCurrentGridCell( BinaryTreeDirection up_or_left_or_right ) {
-    if( up_or_left_or_right == BinaryTreeDirection::UP ){
-        //We go "up" in the tree, so we remove the last bit of the path.
-        _theCurrentGridCell._theWord.pop_back();
-    } else {
-        //Here up_or_left_or_right is either LEFT or RIGHT, so true defines moving to the right branch
-        _theCurrentGridCell._theWord.push_back( up_or_left_or_right==BinaryTreeDirection::RIGHT );
-    }
-    _theCurrentGridCell = GridCell( _theCurrentGridCell._theGrid, _theCurrentGridCell._theExtent, _theCurrentGridCell._theWord );
-}
-
-inline GridTreeCursor& GridTreeCursor::move(BinaryTreeDirection up_or_left_or_right) {
-    if( up_or_left_or_right == BinaryTreeDirection::UP ) {
-        if( is_root() ) {
-            throw NotAllowedMoveException(ARIADNE_PRETTY_FUNCTION);
-        }
-        //Remove the current node from the stack
-        pop();
-    }
-    else {
-        if( is_leaf() ){
-            throw NotAllowedMoveException(ARIADNE_PRETTY_FUNCTION);
-        }
-        //If we are not in the leaf node then we can go down
-        BinaryTreeNode* pNextNode;
-        if( up_or_left_or_right == BinaryTreeDirection::RIGHT ) { //move to the right
-            pNextNode = _theStack[ static_cast<SizeType>(_currentStackIndex) ]->right_node();
-        } else { // move to the left
-            pNextNode = _theStack[ static_cast<SizeType>(_currentStackIndex) ]->left_node();
-        }
-        //Put the node into the stack
-        push(pNextNode);
-    }
-
-    //Recompute the PavingGridCell
-    updateTheCurrentGridCell( up_or_left_or_right );
-    //Return the object back
-    return ( * this);
-}
-
-Bool GridTreeCursor::operator==(const GridTreeCursor& anotherGridTreeCursor) const {
-    Bool areEqual = false;
-    if( (this->_currentStackIndex >=0) && (anotherGridTreeCursor._currentStackIndex >=0 ) ){
-        areEqual = (this->_theStack[static_cast<SizeType>(this->_currentStackIndex)] == anotherGridTreeCursor._theStack[static_cast<SizeType>(anotherGridTreeCursor._currentStackIndex)]);
-    }
-    return areEqual;
-}
-
-GridTreeSubpaving GridTreeCursor::operator*() {
-    //IVAN S ZAPREEV:
-    //NOTE: The first three parameters define the location of the _theStack[ _currentStackIndex ]
-    //node with respect to the primary cell of the GridTreeSet.
-    return GridTreeSubpaving( _theCurrentGridCell._theGrid,
-                           _theCurrentGridCell._theExtent,
-                           _theCurrentGridCell._theWord,
-                           _theStack[ static_cast<SizeType>(_currentStackIndex) ] );
-}
-
-const GridTreeSubpaving GridTreeCursor::operator*() const {
-    return const_cast<GridTreeCursor&>(*this).operator*();
-}
-
-//************************************FRIENDS OF GridTreeCursor*****************************************/
-
-OutputStream& operator<<(OutputStream& os, const GridTreeCursor& theGridTreeCursor) {
-    const Int curr_stack_idx = theGridTreeCursor._currentStackIndex;
-    os << "GridTreeCursor( " << theGridTreeCursor._pSubPaving <<
-        ", Curr. stack index: " << curr_stack_idx  <<
-        ", Stack data: [ ";
-    for(SizeType i = 0; i <= static_cast<SizeType>(curr_stack_idx); i++){
-        os << theGridTreeCursor._theStack[i]->node_to_string() << ( ( i < static_cast<SizeType>(curr_stack_idx) ) ? "" : ", ");
-    }
-    return os<<" ], " << theGridTreeCursor._theCurrentGridCell << " )";
-}
-
-//***************************************GridTreeConstIterator************************************/
-
-GridTreeConstIterator::GridTreeConstIterator(  ) : _pGridTreeCursor()  {
-}
-
-GridTreeConstIterator::GridTreeConstIterator( const GridTreeSubpaving * pSubPaving, const ValidatedKleenean firstLastNone )
-    :  _pGridTreeCursor(pSubPaving)
-{
-    if( is_determinate( firstLastNone ) ) {
-        //If the first/last enabled node is not found, it means that there are no elements
-        //to iterate on, then we switch to the "end Iterator" state
-        _is_in_end_state = ! navigate_to( definitely( firstLastNone ) );
-    } else {
-        //In this case if we do nothing, the cursor in the Iterator will point to the root node
-        //Since this can be the only node in the tre we should add a marker that indicates that
-        //the Iterator is at the end state.
-        _is_in_end_state = true;
-    }
-}
-
-Void GridTreeConstIterator::find_next_enabled_leaf() {
-    if( _pGridTreeCursor.is_left_child() ) {
-        //Move to the parent node
-        _pGridTreeCursor.move_up();
-        //The right node must exist, due to the way we allocate the tree
-        //Also, this node is the root of the branch which we did not investigate.
-        _pGridTreeCursor.move_right();
-        //Find the first enabled leaf on this sub-tree
-        if( ! navigate_to(true) ){
-            //If there are no enabled leafs in the subtree, then
-            //move up and check the remaining branches recursively.
-            find_next_enabled_leaf();
-        }
-    } else {
-        if( _pGridTreeCursor.is_right_child() ) {
-            //Move to the parent node
-            _pGridTreeCursor.move_up();
-            //Move up and check the remaining branches recursively.
-            find_next_enabled_leaf();
-        } else {
-            //Is the root node already and we've seen all the leaf nodes
-            _is_in_end_state = true;
-        }
-    }
-}
-
-Bool GridTreeConstIterator::navigate_to(Bool firstLast){
-    Bool isEnabledLeafFound = false;
-    if( _pGridTreeCursor.is_leaf() ){
-        if ( _pGridTreeCursor.is_enabled() ) {
-            //If the leaf is enabled, then the search is over
-            isEnabledLeafFound = true;
-        }
-    } else {
-        //If it is not a leaf then we need to keep searching
-        if( firstLast ) {
-            //If we are looking for the first enabled
-            //node, then go to the left sub node
-            _pGridTreeCursor.move_left();
-        } else {
-            //Otherwise we go to the right
-            _pGridTreeCursor.move_right();
-        }
-        //Do recursive check of the newly visited node
-        isEnabledLeafFound = navigate_to( firstLast );
-        //If the leaf node is not found yet
-        if ( ! isEnabledLeafFound ) {
-            if( firstLast ) {
-                _pGridTreeCursor.move_right();
-            } else {
-                _pGridTreeCursor.move_left();
-            }
-            isEnabledLeafFound = navigate_to( firstLast );
-        }
-    }
-
-    //If the enabled leaf is not found and we are not in the root then we go back
-    if( ! isEnabledLeafFound && ! _pGridTreeCursor.is_root() ){
-        _pGridTreeCursor.move_up();
-    }
-
-    return isEnabledLeafFound;
-}
-
-Void GridTreeConstIterator::increment() {
-    //If we are not done iterating
-    if( ! _is_in_end_state){
-        //We are at some enabled-leaf node and we want to find the next one.
-        //The next node is somewhere on the right in the tree.
-        find_next_enabled_leaf();
-    }
-}
-
-Bool GridTreeConstIterator::equal( GridTreeConstIterator const & theOtherIterator) const {
-    //Check if both iterators are in the "end Iterator" state
-    Bool result = theOtherIterator._is_in_end_state && this->_is_in_end_state;
-
-    //If not then check if the cursors are equal (i.e. if they point to the same binary-tree node of the same (subpaving)
-    if( ! result ){
-        if( theOtherIterator._is_in_end_state || this->_is_in_end_state ){
-            //If at one is in the end state and the other is not then the answer is FALSE
-            result = false;
-        } else {
-            result = theOtherIterator._pGridTreeCursor == this->_pGridTreeCursor;
-        }
-    }
-
-    return result;
-}
-
-GridTreeConstIterator* GridTreeConstIterator::clone() const {
-    return new GridTreeConstIterator(*this);
-}
-
-Bool GridTreeConstIterator::equals( ForwardConstantIteratorInterface<GridCell> const & theOtherIterator) const {
-    GridTreeConstIterator const* theOtherIteratorPointer = dynamic_cast<GridTreeConstIterator const*>(&theOtherIterator);
-    return theOtherIteratorPointer && (this->equal(*theOtherIteratorPointer));
-}
-
-OutputStream& GridTreeConstIterator::_write(OutputStream& os) const {
-    return os << "GridTreeConstIterator(" << this->cursor() << ")";
-}
-
-
-//*******************************************GridTreeSubset******************************************/
-
-SizeType GridTreeSubpaving::size() const {
-    return BinaryTreeNode::count_enabled_leaf_nodes( this->binary_tree() );
-}
-
-Void GridTreeSubpaving::set_root_cell(Bool enabled_or_disabled)  {
-    this->_pRootTreeNode->set(enabled_or_disabled);
-}
-
-Void GridTreeSubpaving::mince_to_tree_depth( const Nat theNewTreeDepth ) {
-    _pRootTreeNode->mince( theNewTreeDepth );
-}
-
-Void GridTreeSubpaving::recombine() {
-    _pRootTreeNode->recombine();
-}
-
-Nat GridTreeSubpaving::tree_depth() const {
-    return _pRootTreeNode->depth();
-}
-
-Bool GridTreeSubpaving::operator==(const GridTreeSubpaving& anotherGridTreeSubset) const {
-    return ( this->_theGridCell == anotherGridTreeSubset._theGridCell ) &&
-        ( ( * this->_pRootTreeNode ) == ( * anotherGridTreeSubset._pRootTreeNode ) );
-}
-
-GridTreeSubpaving::GridTreeSubpaving( const Grid& theGrid, const Nat theExtent,
-                                       const BinaryWord& theWord, BinaryTreeNode * pRootTreeNode )
-    : _pRootTreeNode(pRootTreeNode), _theGridCell(theGrid, theExtent, theWord) {
-}
-
-GridTreeSubpaving::GridTreeSubpaving( const GridTreeSubpaving &otherSubset )
-    : _pRootTreeNode(otherSubset._pRootTreeNode),
-      _theGridCell(otherSubset._theGridCell) {
-}
-
-GridTreeSubpaving::~GridTreeSubpaving() {
-    //IVAN S ZAPREEV:
-    //WARNING: This method should have no implementation what so ever
-    //All the synamically allocatged data should be destroyed from the
-    //corresponding Paving object
-}
-
-inline Nat GridTreeSubpaving::compute_number_subdiv( FloatDP theWidth, const FloatDP theMaxWidth) const{
-    //Compute the minimum number of subdivisions N as:
-    //   minimum N : ( theWidth / 2^{N} ) <= theMaxWidth
-    //This is equivalent to (because all values are positive)
-    //   minimum N : theWidth / theMaxWidth <= 2^{N}
-    //log is a continuous-increasing dunction, thus the latter is
-    //equivalent to (since 0 < theMaxWidth, theWidth < infinite )
-    //   minimum N : log( theWidth / theMaxWidth ) <= N
-    //In computations then we need to take
-    //   N = ceil( log( theWidth / theMaxWidth ) )
-
-    //IVAN S ZAPREEV:
-    //NOTE: We take log_approx, log_approx because if we use _up and _down versions to maximize the answer,
-    //then it might become very inaccurate, and in case require more subdivisions than needed.
-    //NOTE: We need base 2 logarithm, we get it by the rule: log_a(b)/log_a(c) = log_c(a)
-    //PIETER COLLINS:
-    //NOTE: FloatDP now uses approximate operators by default
-    Nat result = 0;
-    if ( theWidth > theMaxWidth ){
-        //result = (Nat) ceil( div(approx, log(approx, div(approx, theWidth, theMaxWidth ) ) , log(approx, R(2.0) ) ) );
-        result = integer_cast<Nat>(ceil( div( near, log( near, div( near, theWidth, theMaxWidth ) ) , log( near, FloatDP(2.0_x,dp) ) ) ) );
-    }
-    return result;
-}
-
-Bool GridTreeSubpaving::is_empty() const {
-    return this->size() == 0;
-}
-
-DimensionType GridTreeSubpaving::dimension( ) const {
-    return grid().dimension();
-}
-
-
-const Grid& GridTreeSubpaving::grid() const {
-    return this->_theGridCell.grid();
-}
-
-GridCell GridTreeSubpaving::root_cell() const {
-    return _theGridCell;
-}
-
-UpperBoxType GridTreeSubpaving::bounding_box() const {
-    if(this->is_empty()) return ExactBoxType(this->dimension());
-
-    GridTreePaving::ConstIterator iter=this->begin();
-    UpperBoxType bbox = iter->box();
-
-    for( ; iter!=this->end(); ++iter) {
-        UpperBoxType cell = iter->box();
-        for(DimensionType i = 0; i < cell.dimension(); ++i) {
-            if(cell[i].lower_bound().raw() < bbox[i].lower_bound().raw()) bbox[i].set_lower_bound(cell[i].lower_bound());
-            if(cell[i].upper_bound().raw() > bbox[i].upper_bound().raw()) bbox[i].set_upper_bound(cell[i].upper_bound());
-        }
-    }
-
-    return bbox;
-
-}
-
-inline Nat GridTreeSubpaving::zero_cell_subdivisions_to_tree_subdivisions( const Nat numSubdivInDim, const Nat primaryCellExtent,
-                                                                           const Nat primaryToRootCellPathLength ) const {
-    //Here we take the extent of the primary cell that the subpaving's root cell is rooted to
-    //This extent times the number of dimensions is the number of subdivisions to make in
-    //the primary cell to reach the level of the zero cell. This plus the numSubdivInDim
-    //times the number of dimensions gives us the total number of the primary cell we have
-    //to make. But, the given paving is has the root node different from the primary cell,
-    //thus we have to subtract the length of the path from the primary cell to the root cell
-    //of this subpaving, to get the proper number of subdivisions to make in the binary tree
-    Int theTreeDepth = ( primaryCellExtent + numSubdivInDim ) * _theGridCell.grid().dimension() - primaryToRootCellPathLength;
-    //If the new depth is not positive then we already have the required number
-    //of subdivisions so then nothing has to be done, so we return zero!
-    return (theTreeDepth > 0) ? static_cast<Nat>(theTreeDepth) : 0u;
-}
-
-Void GridTreeSubpaving::mince( Nat numSubdivInDim ) {
-    mince_to_tree_depth( zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, _theGridCell.root_extent(), _theGridCell.word().size() ) );
-}
-
-Void GridTreeSubpaving::mince_to_depth( const Nat theNewDepth ) {
-    Int theNewTreeDepth = _theGridCell.root_extent() * _theGridCell.grid().dimension() + theNewDepth - _theGridCell.word().size();
-    _pRootTreeNode->mince( (theNewTreeDepth > 0) ? static_cast<Nat>(theNewTreeDepth) : 0u );
-}
-
-GridTreeSubpaving::ConstIterator GridTreeSubpaving::begin() const {
-    return GridTreeSubpaving::ConstIterator(this, true);
-}
-
-GridTreeSubpaving::ConstIterator GridTreeSubpaving::end() const {
-    return GridTreeSubpaving::ConstIterator(this, indeterminate);
-}
-
-const BinaryTreeNode * GridTreeSubpaving::binary_tree() const {
-    return _pRootTreeNode;
-}
-
-GridTreeSubpaving& GridTreeSubpaving::operator=( const GridTreeSubpaving &otherSubset) {
-    _pRootTreeNode = otherSubset._pRootTreeNode;
-    _theGridCell = otherSubset._theGridCell;
-
-    return *this;
-}
-
-inline GridTreeSubpaving* GridTreeSubpaving::_branch(Bool left_or_right) const {
-    return new GridTreeSubpaving(this->branch(left_or_right));
-}
-
-inline ForwardConstantIteratorInterface<GridCell>* GridTreeSubpaving::_begin() const {
-    return new GridTreeConstIterator(this->begin());
-}
-
-inline ForwardConstantIteratorInterface<GridCell>* GridTreeSubpaving::_end() const {
-    return new GridTreeConstIterator(this->end());
-}
-
-Bool GridTreeSubpaving::equals(const SubPavingInterface& paving) const {
-    return (*this) == dynamic_cast<const GridTreeSubpaving&>(paving);
-}
-
-Bool GridTreeSubpaving::superset(const GridCell& theCell) const {
-    return Ariadne::subset(theCell,*this);
-}
-
-Bool GridTreeSubpaving::subset(const SubPavingInterface& paving) const {
-    return Ariadne::subset(*this, dynamic_cast<const GridTreeSubpaving&>(paving));
-}
-
-Bool GridTreeSubpaving::intersects(const SubPavingInterface& paving) const {
-    return Ariadne::intersect(*this, dynamic_cast<const GridTreeSubpaving&>(paving));
-}
-
-GridTreeSubpaving* GridTreeSubpaving::clone( ) const {
-    // Return a GridTreeSet to ensure that memory is copied.
-    return new GridTreePaving(this->grid(),this->_pRootTreeNode);
-}
-
-
-GridTreeSubpaving GridTreeSubpaving::branch(Bool left_or_right) const {
-    BinaryWord theWord=this->_theGridCell.word();
-    theWord.append(left_or_right);
-    BinaryTreeNode* pBinaryTreeNode=this->_pRootTreeNode->child_node(left_or_right);
-    return GridTreeSubpaving(this->_theGridCell.grid(),this->_theGridCell.root_extent(),theWord,pBinaryTreeNode);
-}
-
-
-Void GridTreeSubpaving::subdivide( ApproximateDouble theInputMaxCellWidth ) {
-    //1. Take the ExactBoxType of this GridTreeSubset's GridCell
-    //   I.e. the box that corresponds to the root cell of
-    //   the GridTreeSubset in the original space.
-    const ExactBoxType& theRootCellBoxType = _theGridCell.box();
-
-    //2. Compute the widths of the box in each dimension and the maximum number
-    //   among the number of subdivisions that we need to do in each dimension
-    //   in order to make the width in this dimension <= theMaxCellWidth.
-    const DimensionType dimensions = _theGridCell.dimension();
-    Nat max_num_subdiv_dim = 0, num_subdiv = 0, max_subdiv_dim = 0;
-
-    FloatDP theMaxCellWidth(cast_exact(theInputMaxCellWidth),dp);
-
-    for(DimensionType i = 0; i < dimensions; i++){
-        //Get the number of required subdivisions in this dimension
-        //IVAN S ZAPREEV:
-        //NOTE: We compute sub_up because we do not want to have insufficient number of subdivisions
-        num_subdiv = compute_number_subdiv( sub(up, theRootCellBoxType[i].upper_bound(), theRootCellBoxType[i].lower_bound() ) , theMaxCellWidth );
-
-        //Compute the max number of subdivisions and the dimension where to do them
-        if( num_subdiv >= max_num_subdiv_dim ){
-            max_num_subdiv_dim = num_subdiv;
-            max_subdiv_dim = i;
-        }
-    }
-
-    //3. Let the maximum number of subdivisions M has to be done in dimension K  with the total number of
-    //   dimensions N: 1 <= K <= N. This means that from this cell down we have to do M splits for dimension K.
-    Nat needed_num_tree_subdiv = 0;
-    //If we need to subdivide in one of the dimensions then
-    if( max_num_subdiv_dim != 0 ){
-        //3.1 Compute the dimension C for which we had the last split, we should start with the primary cell which is the root of
-        //the GridTreeSet because from this cell we begin subdividing in dimension one by one: 1,2,...,N, then again 1,2,...,N.
-        //The path to the root of the sub-paving is given by the binary word, its length gives the number of tree subdivisions:
-        const Nat pathLength = _theGridCell.word().size();
-        //If pathLength == 0 then there were no subdivisions in the tree, so we assign last_subdiv_dim == -1
-        const Int last_subdiv_dim = ( pathLength == 0 ) ? -1 : static_cast<Int>(( pathLength - 1 )  % dimensions);
-
-        //3.2 Compute the needed number of tree subdivisions by first computing how many subdivisions in the tree
-        //we need to do to reach and split the dimension K one first time and then we should add the remaining
-        //( M - 1 )*N tree subdevisions which will make shure that the K'th dimension is subdivided M times.
-        Nat first_subdiv_steps;
-        if( last_subdiv_dim == static_cast<Int>(max_subdiv_dim) ) {
-            //If last_subdiv_dim == -1 then we will never get here
-            first_subdiv_steps = dimensions; // C == K
-        } else {
-            //If last_subdiv_dim == -1 then we will add a needed extra subdivision
-            first_subdiv_steps = static_cast<Nat>(static_cast<Int>(max_subdiv_dim) - last_subdiv_dim); // C < K
-            if( last_subdiv_dim > static_cast<Int>(max_subdiv_dim) ) {
-                //If last_subdiv_dim == -1 then we will never get here
-                first_subdiv_steps = dimensions - first_subdiv_steps; // C > K
-            }
-        }
-        needed_num_tree_subdiv = first_subdiv_steps + ( max_num_subdiv_dim - 1 ) * dimensions;
-    }
-
-    //Mince to the computed number of tree levels
-    mince_to_tree_depth(needed_num_tree_subdiv);
-}
-
-FloatDPApproximation GridTreeSubpaving::measure() const {
-    FloatDPApproximation result={0.0, dp};
-    for(ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
-        result+=iter->box().measure().value();
-    }
-    return result;
-}
-
-
-
-GridTreeSubpaving::operator ListSet<ExactBoxType>() const {
-    ListSet<ExactBoxType> result(this->root_cell().dimension());
-
-    //IVAN S ZAPREEV:
-    //NOTE: Push back the boxes, note that BoxListSet uses a vector, that
-    //in its turn uses std:vector to store boxes in it (via push_back method),
-    //the latter stores the copies of the boxes, not the references to them.
-    for (GridTreeSubpaving::ConstIterator it = this->begin(), end = this->end(); it != end; it++ ) {
-        result.push_back((*it).box());
-    }
-
-    return result;
-}
-
-Bool GridTreeSubpaving::superset( const ExactBoxType& theBoxType ) const {
-    //Check that the box corresponding to the root node of the set
-    //is not disjoint from theBoxType. If it is then the set is not a
-    //subset of theBoxType otherwise we need to traverse the tree and check
-    //if all it's enabled nodes give boxes that are subsets of theBoxType.
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    Bool isASubSet = theBoxType.subset( root_cell().box() );
-    if( ! isASubSet ) {
-        //If the box is not covered by the cell corresponding to the root node
-        //of the set, then clearly theBoxType is not a subset of this set.
-        return false;
-    } else {
-        //Otherwise, is theBoxType is possibly a subset then we try to see furhter
-        BinaryWord pathCopy( root_cell().word() );
-        return definitely( GridTreeSubpaving::_superset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) ) ;
-    }
-}
-
-Bool GridTreeSubpaving::subset( const ExactBoxType& theBoxType ) const {
-    //Check that the box corresponding to the root node of the set
-    //is not disjoint from theBoxType. If it is then the set is not a
-    //subset of theBoxType otherwise we need to traverse the tree and check
-    //if all it's enabled nodes give boxes that are subsets of theBoxType.
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    BinaryWord pathCopy( root_cell().word() );
-
-    return definitely( GridTreeSubpaving::_subset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) );
-}
-
-Bool GridTreeSubpaving::disjoint( const ExactBoxType& theBoxType ) const {
-    //Check that the box corresponding to the root node of the set
-    //is not disjoint from theBoxType. If it is then the set is not a
-    //subset of theBoxType otherwise we need to traverse the tree and check
-    //if all it's enabled nodes give boxes that are subsets of theBoxType.
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    BinaryWord pathCopy( root_cell().word() );
-
-    return definitely( GridTreeSubpaving::_disjoint( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) );
-}
-
-Bool GridTreeSubpaving::intersects( const ExactBoxType& theBoxType ) const {
-    //Check that the box corresponding to the root node of the set
-    //is not disjoint from theBoxType. If it is then the set is not a
-    //subset of theBoxType otherwise we need to traverse the tree and check
-    //if all it's enabled nodes give boxes that are subsets of theBoxType.
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    BinaryWord pathCopy( root_cell().word() );
-
-    return definitely( GridTreeSubpaving::_intersects( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) );
-}
-
-ValidatedLowerKleenean GridTreeSubpaving::covers( const ExactBoxType& theBoxType ) const {
-    //Simply check if theBoxType is covered by the set and then make sure that
-    //all tree cells that are not disjoint from theBoxType are enabled
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    Bool isASubSet = theBoxType.subset( root_cell().box() );
-    if( ! isASubSet ) {
-        //If the box is not covered by the cell corresponding to the root node
-        //of the set, then clearly theBoxType is not a subset of this set.
-        return false;
-    } else {
-        //Otherwise, is theBoxType is possibly a subset then we try to see furhter
-        BinaryWord pathCopy( root_cell().word() );
-        return GridTreeSubpaving::_superset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(widen(theBoxType)) );
-    }
-}
-
-ValidatedLowerKleenean GridTreeSubpaving::inside( const ExactBoxType& theBoxType ) const {
-    //Check that the box corresponding to the root node of the set
-    //is not disjoint from theBoxType. If it is then the set is not a
-    //subset of theBoxType otherwise we need to traverse the tree and check
-    //if all it's enabled nodes give boxes that are subsets of theBoxType.
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    BinaryWord pathCopy( root_cell().word() );
-
-    return GridTreeSubpaving::_subset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(narrow(theBoxType)) );
-}
-
-ValidatedLowerKleenean GridTreeSubpaving::separated( const ExactBoxType& theBoxType ) const {
-    //Simply check if the box does not intersect with the set
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    BinaryWord pathCopy( root_cell().word() );
-
-    return GridTreeSubpaving::_disjoint( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(widen(theBoxType)) );
-}
-
-ValidatedLowerKleenean GridTreeSubpaving::overlaps( const ExactBoxType& theBoxType ) const {
-    //Check if the box of the root cell overlaps with theBoxType,
-    //if not then theBoxType does not intersect with the cell,
-    //otherwise we need to find at least one enabled node
-    //in the binary tree, such that it's box overlaps theBoxType.
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    BinaryWord pathCopy( root_cell().word() );
-
-    return GridTreeSubpaving::_intersects( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(narrow(theBoxType)) );
-}
-
-ValidatedKleenean GridTreeSubpaving::_superset( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
-                                             const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
-    ValidatedKleenean result;
-
-    //Check if the current node's cell intersects with theBoxType
-    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
-    ValidatedKleenean doIntersect = theCellsBoxType.overlaps( theBoxType );
-
-    if( ! definitely(doIntersect) ) {
-        //If theBoxType does not intersect with the cell then for the covering relation
-        //is is not important if we add or remove this cell, so we return true
-        result = true;
-    } else {
-        //If the cell possibly intersects with theBoxType then
-        if( pCurrentNode->is_leaf() ) {
-            if( pCurrentNode->is_enabled() ){
-                //If this is an enabled node that possibly or definitely intersects
-                //with theBoxType then the covering property is fine, so we return true
-                result = true;
-            } else {
-                //If the node is disabled then if it definitely intersects with theBoxType
-                //we have to report false, as there is not covering, in case it is only
-                //possible intersecting with theBoxType then we return possibly. The latter
-                //is because we are not completely sure, if the intersection does not
-                //have place then the covering property is not broken.
-                result = ! doIntersect;
-            }
-        } else {
-            //The node is not a leaf so we need to go down and see if the cell
-            //falls into sub cells for which we can sort things out
-            theWord.push_back(false);
-            const ValidatedKleenean result_left = GridTreeSubpaving::_superset( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
-            theWord.pop_back();
-
-            if( definitely(not result_left) ) {
-                //If there is definitely no covering property then this is all
-                //we need to know so there is not need to check the other branch.
-                result = false;
-            } else {
-                //If the covering property holds or is possible, then we still
-                //need to check the second branch because it can change the outcome.
-                theWord.push_back(true);
-                const ValidatedKleenean result_right = GridTreeSubpaving::_superset( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
-                theWord.pop_back();
-
-                if( definitely(not result_right) ) {
-                    //IF: The right sub-node reports false, then the result is false
-                    //NOTE: We already sorted out the case of ( (!result_left) == true) before
-                    result = false;
-                } else {
-                    if( definitely(result_left && result_right) ) {
-                        //ELSE: If both sub-nodes report true then it is true
-                        result = true;
-                    } else {
-                        if( is_indeterminate(result_left) || is_indeterminate(result_right) ) {
-                            //ELSE: If one of the sub-nodes reports indeterminate then indeterminate,
-                            result = indeterminate;
-                        } else {
-                            //ELSE: An impossible situation
-                            ARIADNE_ASSERT( false );
-                        }
-                    }
-                }
-            }
-        }
-    }
-
-    return result;
-}
-
-ValidatedKleenean GridTreeSubpaving::_subset( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
-                                           const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
-    ValidatedKleenean result;
-
-    //Check if the current node overlaps with theBoxType
-    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
-    ValidatedKleenean isASubset = theCellsBoxType.subset( theBoxType );
-
-    if( definitely(isASubset) ){
-        //It does not matter if pCurrentNode has enableds leaves or not we already know that the cell
-        //corresponding to this node is geometrically a subset of theBoxType.
-        result = true;
-    } else {
-        //If the cell corresponding to pCurrentNode is not a subset, then
-        if( pCurrentNode->is_leaf() && definitely(not isASubset) ) {
-            //If pCurrentNode is a leaf node and geometrically the cell (corresponding to the node theCellsBoxType) is not a
-            //subset of theBoxType, then: if it is enabled then pCurrentNode is not a subset of theBoxType but otherwise it is.
-            result = ! pCurrentNode->is_enabled();
-        } else {
-            if( pCurrentNode->is_leaf() && is_indeterminate( isASubset ) ) {
-                //If we are in a leaf node but we do not know for sure if the given cell
-                //is a subset of theBoxType then we can only check if it is enabled or not
-                if( pCurrentNode->is_enabled() ){
-                    //For an enabled-leaf node (a filled cell) we do not know if it is a subset of theBoxType
-                    result = indeterminate;
-                } else {
-                    //The node is disabled, so it represents an empty set, which is a subset of any set
-                    result = true;
-                }
-            } else {
-                //The node is not a leaf, and we either know that the cell of pCurrentNode is not a geometrical subset
-                //of theBoxType or we are not sure that it is, This means that we can do recursion to sort things out.
-                theWord.push_back(false);
-                const ValidatedKleenean result_left = GridTreeSubpaving::_subset( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
-                theWord.pop_back();
-
-                if( definitely(not result_left) ) {
-                    //If the left branch is not a subset, then there is no need to check the right one
-                    result = false;
-                } else {
-                    //if we still do not know the answer, then we check the right branch
-                    theWord.push_back(true);
-                    const ValidatedKleenean result_right = GridTreeSubpaving::_subset( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
-                    theWord.pop_back();
-
-                    if( definitely(not result_right) ) {
-                        //IF: The right sub-node reports false, then the result is false
-                        //NOTE: We already sorted out the case of ( (!result_left) == true) before
-                        result = false;
-                    } else {
-                        if( definitely(result_left && result_right) ) {
-                            //ELSE: If both sub-nodes report true then it is true
-                            result = true;
-                        } else {
-                            if( is_indeterminate(result_left) || is_indeterminate(result_right) ) {
-                                //ELSE: If one of the sub-nodes reports indeterminate then indeterminate,
-                                result = indeterminate;
-                            } else {
-                                //ELSE: An impossible situation
-                                ARIADNE_ASSERT( false );
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
-
-    return result;
-}
-
-ValidatedKleenean GridTreeSubpaving::_disjoint( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
-                                             const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
-    ValidatedKleenean intersect;
-
-    //Check if the current node overlaps with theBoxType
-    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
-    ValidatedKleenean doPossiblyIntersect = !theCellsBoxType.disjoint( theBoxType );
-
-    if( possibly(doPossiblyIntersect) ) {
-        //If there is a possible intersection then we do the checking
-        if( pCurrentNode->is_leaf() ) {
-            //If this is a leaf node then
-            if( pCurrentNode->is_enabled() ){
-                //If the node is enabled, then we have a possible intersection
-                intersect = doPossiblyIntersect;
-            } else {
-                //Since the node is disabled, there can be no intersection
-                intersect = false;
-            }
-        } else {
-            //The node is not a leaf and the intersection is possible so check the left sub-node
-            theWord.push_back(false);
-            const ValidatedKleenean intersect_left = GridTreeSubpaving::_intersects( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
-            theWord.pop_back();
-
-            //
-            //WARNING: I know how to write a shorter code, like:
-            //          if( ! ( intersect = definitely( intersect_left ) ) ) {
-            //              ...
-            //          }
-            // I DO NOT DO THIS ON PERPOSE, KEEP THE CODE EASILY UNDERSTANDABLE!
-            //
-            if( definitely(intersect_left) ) {
-                //If we definitely have intersection for the left branch then answer is true
-                intersect = true;
-            } else {
-                //If we still not sure/ or do not know then try to search further, i.e. check the right node
-                theWord.push_back(true);
-                const ValidatedKleenean intersect_right = GridTreeSubpaving::_intersects( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
-                theWord.pop_back();
-                if( definitely(intersect_right) ) {
-                    //If we definitely have intersection for the right branch then answer is true
-                    intersect = true;
-                } else {
-                    //Now either we have indeterminate answers or we do not know, if one
-                    //if the answers for one of the branches was indeterminate then we
-                    //report indeterminate, otherwise it is definitely false.
-                    if( is_indeterminate( intersect_left ) || is_indeterminate( intersect_right )  ) {
-                        intersect = indeterminate;
-                    } else {
-                        intersect = false;
-                    }
-                    //ERROR: Substituting the above if statement with the following conditional assignement DOES NOT WORK:
-                    //    intersect = ( ( indeterminate( intersect_left ) || indeterminate( intersect_right ) ) ? indeterminate : false );
-                    //In this case, if we need to assign false, the proper branch of the conditional statement is executed,
-                    //but somehow the value of the "intersect" variable becomes indeterminate!
-                }
-            }
-        }
-    } else {
-        //If there is no intersection then we just stop with a negative intersect
-        intersect = false;
-    }
-
-    return !intersect;
-}
-
-ValidatedKleenean GridTreeSubpaving::_intersects( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
-                                               const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
-    ValidatedKleenean result;
-
-    //Check if the current node overlaps with theBoxType
-    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
-    ValidatedKleenean doPossiblyIntersect = theCellsBoxType.overlaps( theBoxType );
-
-    if( possibly(doPossiblyIntersect) ) {
-        //If there is a possible intersection then we do the checking
-        if( pCurrentNode->is_leaf() ) {
-            //If this is a leaf node then
-            if( pCurrentNode->is_enabled() ){
-                //If the node is enabled, then we have a possible intersection
-                result = doPossiblyIntersect;
-            } else {
-                //Since the node is disabled, there can be no intersection
-                result = false;
-            }
-        } else {
-            //The node is not a leaf and the intersection is possible so check the left sub-node
-            theWord.push_back(false);
-            const ValidatedKleenean result_left = GridTreeSubpaving::_intersects( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
-            theWord.pop_back();
-
-            //
-            //WARNING: I know how to write a shorter code, like:
-            //          if( ! ( result = definitely( result_left ) ) ) {
-            //              ...
-            //          }
-            // I DO NOT DO THIS ON PERPOSE, KEEP THE CODE EASILY UNDERSTANDABLE!
-            //
-            if( definitely(result_left) ) {
-                //If we definitely have intersection for the left branch then answer is true
-                result = true;
-            } else {
-                //If we still not sure/ or do not know then try to search further, i.e. check the right node
-                theWord.push_back(true);
-                const ValidatedKleenean result_right = GridTreeSubpaving::_intersects( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
-                theWord.pop_back();
-                if( definitely(result_right) ) {
-                    //If we definitely have intersection for the right branch then answer is true
-                    result = true;
-                } else {
-                    //Now either we have indeterminate answers or we do not know, if one
-                    //if the answers for one of the branches was indeterminate then we
-                    //report indeterminate, otherwise it is definitely false.
-                    if( is_indeterminate( result_left ) || is_indeterminate( result_right )  ) {
-                        result = indeterminate;
-                    } else {
-                        result = false;
-                    }
-                    //ERROR: Substituting the above if statement with the following conditional assignement DOES NOT WORK:
-                    //    result = ( ( indeterminate( result_left ) || indeterminate( result_right ) ) ? indeterminate : false );
-                    //In this case, if we need to assign false, the proper branch of the conditional statement is executed,
-                    //but somehow the value of the "result" variable becomes indeterminate!
-                }
-            }
-        }
-    } else {
-        //If there is no intersection then we just stop with a negative result
-        result = false;
-    }
-
-    return result;
-}
-
-Void GridTreeSubpaving::draw(CanvasInterface& theGraphic, const Projection2d& theProjection) const {
-    for(GridTreeSubpaving::ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
-        iter->box().draw(theGraphic,theProjection);
-    }
-}
-
-OutputStream&
-GridTreeSubpaving::_write(OutputStream& os) const
-{
-    return os << (*this);
-}
-
-//************************************FRIENDS OF GridTreeSubset*****************************************/
-
-Bool subset( const GridCell& theCell, const GridTreeSubpaving& theSet ) {
-    Bool result = false;
-
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theCell.grid() == theSet.grid() );
-
-    //Test if theCell is a subset of theSet, first check
-    //if the cell can be a subset of the given tree.
-    BinaryWord pathPrefixCell, pathPrefixSet;
-    if( subset( theCell, theSet.root_cell(), &pathPrefixCell, &pathPrefixSet, nullptr) ) {
-        //It can and thus pathPrefixSet is a prefix of pathPrefixCell. Both
-        //paths start in the same primary cell. Also note that pathPrefixSet
-        //is a path from primary_cell_extent to the root node of the binary
-        //tree in theSet. Therefore, removing 0..pathPrefixSet.size() elements
-        //from pathPrefixCell will give us a path to theCell in the tree of theSet.
-        pathPrefixCell.erase( pathPrefixCell.begin(), pathPrefixCell.begin() + static_cast<long>(pathPrefixSet.size()) );
-
-        //Check that the cell given by pathPrefixCell is enabled in the tree of theSet
-        result = theSet.binary_tree()->is_enabled( pathPrefixCell );
-    } else {
-        //DO NOTHING: the cell is a strict superset of the tree
-    }
-    return result;
-}
-
-Bool intersect( const GridCell& theCell, const GridTreeSubpaving& theSet ) {
-    Bool result = false;
-
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theCell.grid() == theSet.grid() );
-
-    //If the primary cell of the theCell is lower that that of theSet
-    //Then we re-root theCell to the primary cell theSet.root_cell().root_extent()
-    const GridCell * pWorkGridCell;
-    const Nat theSetsPCellExtent = theSet.root_cell().root_extent();
-    if( theSetsPCellExtent > theCell.root_extent() ) {
-        //Compute the path from the primary cell of theSet to the primary cell of theCell
-        BinaryWord pathFromSetsPCellToCell = GridCell::primary_cell_path( theCell.dimension(), theSetsPCellExtent, theCell.root_extent() );
-        pathFromSetsPCellToCell.append( theCell.word() );
-        pWorkGridCell = new GridCell( theCell.grid(), theSetsPCellExtent, pathFromSetsPCellToCell );
-    } else {
-        pWorkGridCell = &theCell;
-    }
-
-    //Compute the path for the primary cell of theCell to the primary cell of theSet
-    BinaryWord pathFromPCellCellToSetsRootNode = GridCell::primary_cell_path( theCell.dimension(), pWorkGridCell->root_extent(), theSetsPCellExtent );
-    //Append the path from the primary cell node to the root binary tree node of theSet
-    pathFromPCellCellToSetsRootNode.append( theSet.root_cell().word() );
-
-    const BinaryWord & workCellWord = pWorkGridCell->word();
-    if( workCellWord.is_prefix( pathFromPCellCellToSetsRootNode ) ) {
-        //If the path (from some primary cell) to the cell is a prefix
-        //of the path (from the same primary cell) to the root of the
-        //sub-paving, then theCell contains theSet
-
-        result = theSet.binary_tree()->has_enabled();
-    } else {
-        if( pathFromPCellCellToSetsRootNode.is_prefix( workCellWord ) ) {
-            //If the path (from some primary cell) to the root of the
-            //binary tree node (defining theSet) is the prefix of the
-            //path (from the same primary cell) to the cell, then the
-            //cell might be somwhere within the tree and we should
-            //check if it overlaps with the tree
-
-            const BinaryTreeNode *pCurrentNode = theSet.binary_tree();
-            //Note that, pathFromPCellCellToSetsRootNode.size() < workCellWord.size()
-            //Because we already checked for workCellWord.is_prefix( pathFromPCellCellToSetsRootNode )
-            //Here we try to find the node corresponding to theCell in the binary tree of theSet
-            //in case we encounter a leaf node then we just stop, because it is enough information for us
-            for( SizeType i = pathFromPCellCellToSetsRootNode.size(); i < workCellWord.size(); i++ ) {
-                if( pCurrentNode->is_leaf() ) {
-                    //We reached the leaf node and theCell is it's subset, so we stop now
-                    break;
-                } else {
-                    //Follow the path to the node corresponding to theCell within the binary tree of theSet
-                    pCurrentNode = ( workCellWord[i] ? pCurrentNode->right_node() : pCurrentNode->left_node() );
-                }
-            }
-
-            //At this point we have the following cases:
-            // 1. pCurrentNode - is a leaf node, contains theCell as a subset, is an enabled node
-            // RESULT: theSet and theCell overlap
-            // 2. pCurrentNode - is a leaf node, contains theCell as a subset, is a disabled node
-            // RESULT: theSet and theCell do not overlap
-            // 3. pCurrentNode - is a non-leaf node, corresponds to theCell, contains enabled sub-nodes
-            // RESULT: theSet and theCell overlap
-            // 4. pCurrentNode - is a non-leaf node, corresponds to theCell, contains no enabled sub-nodes
-            // RESULT: theSet and theCell do not overlap
-            result = pCurrentNode->has_enabled();
-        } else {
-            //DO NOTHING: The pathes to the cell and to the root of
-            //the binary tree (from the same primary cell) diverge
-            //This means that theCell and theSet do not overlap
-        }
-    }
-
-    if( theSetsPCellExtent > theCell.root_extent() ) {
-        delete pWorkGridCell;
-    }
-
-    return result;
-}
-
-// This is a helper method, it receives two GridTreeSubset elements
-// then it computes the primary cell that is common to them in a sence that
-// these sets can be rooted to it. After that the method updates the paths
-// with the information about the paths from the found primary cell to the
-// root binary tree nodes of both sets.
-static Void common_primary_cell_path(const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2, BinaryWord &pathCommonPCtoRC1, BinaryWord &pathCommonPCtoRC2 ) {
-    //Get the root cells for the subsets
-    GridCell rootCell1 = theSet1.root_cell();
-    GridCell rootCell2 = theSet2.root_cell();
-    //Get the extents of the primary cells for both subsets
-    const Nat extentPC1 = rootCell1.root_extent();
-    const Nat extentPC2 = rootCell2.root_extent();
-    if( extentPC2 > extentPC1 ) {
-        //Compute the path from the common primary cell to the root cell of theSet1
-        pathCommonPCtoRC1 = GridCell::primary_cell_path( rootCell1.dimension(), extentPC2, extentPC1 );
-        pathCommonPCtoRC1.append( rootCell1.word() );
-        //Compute the path from the common primary cell to the root cell of theSet2
-        pathCommonPCtoRC2 = rootCell2.word();
-    } else {
-        //Compute the path from the common primary cell to the root cell of theSet2
-        pathCommonPCtoRC1 = rootCell1.word();
-        //Compute the path from the common primary cell to the root cell of theSet1
-        pathCommonPCtoRC2 = GridCell::primary_cell_path( rootCell1.dimension(), extentPC1, extentPC2 );
-        pathCommonPCtoRC2.append( rootCell2.word() );
-    }
-}
-
-// This method locates the node in the tree rooted to pSuperTreeRootNode that corresponds to
-//  the path pathFromSuperToSub. In case we encounter a leaf node then we stop and return the node
-static const BinaryTreeNode * locate_node( const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord& pathFromSuperToSub ){
-    //Locate the node in the pSuperTreeRootNode such that it corresponds to pSubTreeRootNode
-    const BinaryTreeNode * pCurrentSuperTreeNode = pSuperTreeRootNode;
-    for( SizeType i = 0; i < pathFromSuperToSub.size(); i++ ) {
-        if( pCurrentSuperTreeNode->is_leaf() ) {
-            //We are in the leaf node and we have not yet reached the node
-            //corresponding to pSubTreeRootNode, because i < pathFromSuperToSub.size()
-            break;
-        } else {
-            pCurrentSuperTreeNode = ( pathFromSuperToSub[i] ? pCurrentSuperTreeNode->right_node() : pCurrentSuperTreeNode->left_node() );
-        }
-    }
-    return pCurrentSuperTreeNode;
-}
-
-// \brief This is a helper functiuon for Bool subset( const GridTreeSubset& theSet1, const GridTreeSubset& theSet2 )
-// pSuperTreeRootNode is the root tree node, pathFromSuperToSub is the path from this root node to the root node
-// pSubTreeRootNode. In general we see if the set represented by pSubTreeRootNode is a subset of pSuperTreeRootNode.
-// If pSubTreeRootNode has no enabled leaf nodes then the result is always true, else if pSuperTreeRootNode has no
-// enabled leaf nodes then the result is always false.
-static Bool subset(const BinaryTreeNode * pSubTreeRootNode, const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord & pathFromSuperToSub) {
-    Bool result = false;
-
-    //Check if both sets are not empty
-    if( pSubTreeRootNode->has_enabled() ) {
-        if( pSuperTreeRootNode->has_enabled() ) {
-            //Locate the node in pSuperTreeRootNode, by following the path pathFromSuperToSub
-            const BinaryTreeNode * pCurrentSuperTreeNode = locate_node( pSuperTreeRootNode, pathFromSuperToSub );
-
-            if( pCurrentSuperTreeNode->is_leaf() ) {
-                //If we've reached the leaf node then pSubTreeRootNode is a subset of pSuperTreeRootNode if this
-                //node is enabled, otherwise not. This is because we know that pSubTreeRootNode is not empty.
-                result = pCurrentSuperTreeNode->is_enabled();
-            } else {
-                //At this point pCurrentSuperTreeNode corresponds to pSubTreeRootNode
-                //So the trees are aligned now and we can continue checking further.
-                result = BinaryTreeNode::subset( pSubTreeRootNode, pCurrentSuperTreeNode );
-            }
-        } else {
-            //Nothing is a subset of an empty set except for an empty
-            //set, but we know that pSubTreeRootNode is not empty.
-            result = false;
-        }
-    } else {
-        //An empty set is a subset of any set including the empty set itself
-        result = true;
-    }
-
-    return result;
-}
-
-// This is a helper functiuon for Bool subset( const GridTreeSubset& theSet1, const GridTreeSubset& theSet2 )
-// pSuperTreeRootNode is the root tree node, pathFromSuperToSub is the path from this root node to the root node
-// pSubTreeRootNode. In general we see if the set represented by pSuperTreeRootNode is a subset of pSubTreeRootNode.
-// If pSuperTreeRootNode has no enabled leaf nodes then the result is always true, else if pSubTreeRootNode has no
-// enabled leaf nodes then the result is always false.
-static Bool subset( const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord & pathFromSuperToSub, const BinaryTreeNode * pSubTreeRootNode ) {
-    Bool result = false;
-
-    //First we iterate throught the path pathFromSuperToSub trying to reach the common node with pSubTreeRootNode
-    //Since we want to know if pSuperTreeRootNode is a subset of pSubTreeRootNode, the branches of pSuperTreeRootNode
-    //that we ommit traveling the path pathFromSuperToSub, should contain no enabled leaf nodes. Because otherwise
-    //pSuperTreeRootNode is not a subset of pSubTreeRootNode. Apart from this, once we encounter a leaf node on the
-    //path we stop because the we can already decide if pSuperTreeRootNode is a subset of pSubTreeRootNode.
-    Nat path_element = 0;
-    Bool areExtraLeavesDisabled = true;
-    const BinaryTreeNode *pCurrentSuperTreeNode = pSuperTreeRootNode;
-    while( ( path_element < pathFromSuperToSub.size() ) && areExtraLeavesDisabled ) {
-        if( pCurrentSuperTreeNode->is_leaf() ){
-            //We ended up in a leaf node so we have to stop iterating through the path
-            break;
-        } else {
-            if( pathFromSuperToSub[ path_element ] ) {
-                //The path goes right, check if the left branch has no enabled leaves
-                areExtraLeavesDisabled = ! pCurrentSuperTreeNode->left_node()->has_enabled();
-                pCurrentSuperTreeNode = pCurrentSuperTreeNode->right_node();
-            } else {
-                //The path goes left, check if the right branch has no enabled leaves
-                areExtraLeavesDisabled = ! pCurrentSuperTreeNode->right_node()->has_enabled();
-                pCurrentSuperTreeNode = pCurrentSuperTreeNode->left_node();
-            }
-        }
-        path_element++;
-    }
-
-    if( areExtraLeavesDisabled ) {
-        //If pSuperTreeRootNode does not have enabled leaves that are outside the bounding cell of
-        //pSubTreeRootNode, this means that pSuperTreeRootNode can be a subset of pSubTreeRootNode.
-        //Now we have to check that:
-        if( pCurrentSuperTreeNode->is_leaf() ) {
-            //A) We reached a leaf node, when following the path, then
-            if( pCurrentSuperTreeNode->is_enabled() ) {
-                //1. If it is enabled then it depends on whether we followed the path to the end
-                if( path_element < pathFromSuperToSub.size() ) {
-                    //1.1 If the path was not finished then pSuperTreeRootNode is a superset of pSubTreeRootNode
-                    result = false;
-                } else {
-                    //1.2 If the path was ended, i.e. pCurrentSuperTreeNode and pSubTreeRootNode are
-                    //aligned, then we simply need to check if one tree is a subset of another:
-                    //     Bool subset(const BinaryTreeNode *, const BinaryTreeNode * )
-                    result = BinaryTreeNode::subset( pCurrentSuperTreeNode, pSubTreeRootNode );
-                }
-            } else {
-                //2. if it is disabled then pSuperTreeRootNode is empty and thus is a subset of theSet2
-                result = true;
-            }
-        } else {
-            //B) We are in a non-leaf node, so we definitely reached the end of the path,
-            //thus proceed like in case A.1.2 (the root nodes of both trees are aligned )
-            result = BinaryTreeNode::subset( pCurrentSuperTreeNode, pSubTreeRootNode );
-        }
-    } else {
-        //If there are enabled leaf nodes in theSet1 that are outside of the bounding cell of
-        //pSubTreeRootNode, then clearly pSuperTreeRootNode is not a subset of pSubTreeRootNode.
-        result = false;
-    }
-    return result;
-}
-
-Bool subset( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
-    Bool result = false;
-
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
-
-    //Define paths for the root cells of theSet1 and theSet2 from the common primary cell
-    BinaryWord pathCommonPCtoRC1;
-    BinaryWord pathCommonPCtoRC2;
-    //Get the paths from the common primary cell to the root nodes of the set's binary trees
-    common_primary_cell_path( theSet1, theSet2, pathCommonPCtoRC1, pathCommonPCtoRC2 );
-
-    //At this point we know paths from the common primary cell
-    //to the root nodes of both subsets. If one of these paths is a prefix of
-    //the other one, then there is a chance that theSet1 is a subset of theSet2.
-    //If not, then they definitely do not overlap.
-    if( pathCommonPCtoRC1.is_prefix( pathCommonPCtoRC2 ) ) {
-        //In this case theSet2 is a subset of the bounding cell of theSet1. Still
-        //it is possible that theSet1 is a subset of theSet2 if all cells of theSet1
-        //outside the bounding box of theSet2 are disabled cells. This we check by
-        //following the path from the foor of theSet1 to the root of theSet2.
-        pathCommonPCtoRC2.erase_prefix( pathCommonPCtoRC1.size() );
-        result = subset( theSet1.binary_tree(), pathCommonPCtoRC2, theSet2.binary_tree() );
-    } else {
-        if( pathCommonPCtoRC2.is_prefix( pathCommonPCtoRC1 ) ) {
-            //Since pathCommonPCtoRC2 is a prefix of pathCommonPCtoRC1,
-            //theSet1 can be a subset of theSet2. This is because theSet1
-            //lies within the bounding cell of theSet2
-            pathCommonPCtoRC1.erase_prefix( pathCommonPCtoRC2.size() );
-            result = subset( theSet1.binary_tree(), theSet2.binary_tree(), pathCommonPCtoRC1 );
-        } else {
-            //theSet1 is a definitely not a subset of theSet2 Since their bounding boxes
-            //are disjoint, due to paths (from the common primary cell to their root nodes)
-            //that have different suffixes.
-            result = false;
-        }
-    }
-
-    return result;
-}
-
-// This is a helper functiuon for Bool overlap( const GridTreeSubset& theSet1, const GridTreeSubset& theSet2 )
-// pSuperTreeRootNode is the root tree node, pathFromSuperToSub is the path from this root node to the root node
-// pSubTreeRootNode. In general we see if the sets represented by pSuperTreeRootNode and pSubTreeRootNode overlap.
-// If at least one of pSuperTreeRootNode and pSubTreeRootNode have no enabled leaf nodes then the result is always false.
-static Bool intersect(const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord & pathFromSuperToSub, const BinaryTreeNode * pSubTreeRootNode) {
-    Bool result = false;
-
-    //Check if both sets are not empty
-    if( pSuperTreeRootNode->has_enabled() && pSubTreeRootNode->has_enabled() ) {
-
-        //Locate the node in pSuperTreeRootNode, by following the path pathFromSuperToSub
-        const BinaryTreeNode * pCurrentSuperTreeNode = locate_node( pSuperTreeRootNode, pathFromSuperToSub );
-
-        if( pCurrentSuperTreeNode->is_leaf() ) {
-            //If we've reached the leaf node then the sets overlap if this node is enabled,
-            //otherwise not. This is because we know that pSubTreeRootNode is not empty.
-            result = pCurrentSuperTreeNode->is_enabled();
-        } else {
-            //At this point pCurrentSuperTreeNode corresponds to pSubTreeRootNode
-            //So the trees are aligned now and we can continue checking further.
-            result = BinaryTreeNode::intersect( pCurrentSuperTreeNode, pSubTreeRootNode );
-        }
-    }
-
-    return result;
-}
-
-Bool intersect( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
-    Bool result = false;
-
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
-
-    //Define paths for the root cells of theSet1 and theSet2 from the common primary cell
-    BinaryWord pathCommonPCtoRC1;
-    BinaryWord pathCommonPCtoRC2;
-    //Get the paths from the common primary cell to the root nodes of the set's binary trees
-    common_primary_cell_path( theSet1, theSet2, pathCommonPCtoRC1, pathCommonPCtoRC2 );
-
-    //At this point we know paths from the common primary cell
-    //to the root nodes of both subsets. If one of these paths is a prefix of
-    //the other one, then there is a chance that the subsets overlap.
-    //If not, then they definitely do not overlap.
-    if( pathCommonPCtoRC1.is_prefix( pathCommonPCtoRC2 ) ){
-        //theSet2 is located somewhere within the bounding box of theSet1
-        pathCommonPCtoRC2.erase_prefix( pathCommonPCtoRC1.size() );
-        result = intersect( theSet1.binary_tree(), pathCommonPCtoRC2, theSet2.binary_tree() );
-    } else {
-        if( pathCommonPCtoRC2.is_prefix( pathCommonPCtoRC1 ) ){
-            //theSet1 is located somewhere within the bounding box of theSet2
-            pathCommonPCtoRC1.erase_prefix( pathCommonPCtoRC2.size() );
-            result = intersect( theSet2.binary_tree(), pathCommonPCtoRC1, theSet1.binary_tree() );
-        } else {
-            //The sets do not overlap
-            result = false;
-        }
-    }
-
-    return result;
-}
-
-OutputStream& operator<<(OutputStream& os, const GridTreeSubpaving& theGridTreeSubset) {
-    return os << "GridTreeSubset( Primary cell: " << theGridTreeSubset.root_cell() << ", " << (*theGridTreeSubset.binary_tree()) <<" )";
-}
-
-
-//********************************************GridTreeSet*********************************************/
-
-GridCell GridTreePaving::smallest_enclosing_primary_cell( const UpperBoxType& theBoxType ) const {
-    ARIADNE_ASSERT_MSG( this->dimension() == theBoxType.dimension(), "Cannot find enclosing cell for ExactBoxType  " << theBoxType << " for GridTreeSet with grid " << this->grid() );
-
-    return GridCell::smallest_enclosing_primary_cell( theBoxType, this->grid() );
-}
-
-Void GridTreePaving::adjoin( const GridCell& theCell ) {
-    ARIADNE_ASSERT_MSG( this->grid() == theCell.grid(), "Cannot adjoin GridCell with grid "<<theCell.grid()<<" to GridTreeSet with grid "<<this->grid() );
-    Bool has_stopped = false;
-    //Align the paving and the cell
-    BinaryTreeNode* pBinaryTreeNode = align_with_cell( theCell.root_extent(), true, false, has_stopped );
-
-    //If we are not trying to adjoin something into an enabled sub cell of the paving
-    if( ! has_stopped ){
-        //Add the enabled cell to the binary tree.
-        pBinaryTreeNode->add_enabled( theCell.word() );
-    }
-}
-
-Void GridTreePaving::adjoin( const GridTreeSubpaving& theOtherSubPaving ) {
-    ARIADNE_ASSERT_MSG( this->grid() == theOtherSubPaving.root_cell().grid(), "Cannot adjoin GridTreeSubset with grid "<<theOtherSubPaving.root_cell().grid()<<" to GridTreeSet with grid "<<this->grid() );
-
-    Bool has_stopped = false;
-    //Align the paving and the cell
-    BinaryTreeNode* pBinaryTreeNode = align_with_cell( theOtherSubPaving.root_cell().root_extent(), true, false, has_stopped );
-
-    //If we are not trying to adjoin something into an enabled sub cell of the paving
-    if( ! has_stopped ){
-        //Now, the pBinaryTreeNode of this paving corresponds to the primary cell common with theOtherSubPaving.
-        //The theOtherSubPaving's root node is defined the path theOtherSubPaving.word() which starts in the
-        //node corresponding to the common primary cell.
-        pBinaryTreeNode->add_enabled( theOtherSubPaving.binary_tree(), theOtherSubPaving.root_cell().word() );
-    }
-}
-
-Void GridTreePaving::adjoin( const SubPavingInterface& theOtherSubPaving ) {
-    this->adjoin(dynamic_cast<const GridTreeSubpaving&>(theOtherSubPaving));
-}
-
-Void GridTreePaving::restrict( const SubPavingInterface& theOtherSubPaving ) {
-    this->restrict(dynamic_cast<const GridTreeSubpaving&>(theOtherSubPaving));
-}
-
-Void GridTreePaving::remove( const SubPavingInterface& theOtherSubPaving ) {
-    this->remove(dynamic_cast<const GridTreeSubpaving&>(theOtherSubPaving));
-}
-
-
-GridTreePaving::GridTreePaving( ) : GridTreeSubpaving( Grid(), 0, BinaryWord(), new BinaryTreeNode( false ) ){
-}
-
-GridTreePaving::GridTreePaving( const Grid& theGrid, const Bool enable  ) :
-    GridTreeSubpaving( theGrid, 0, BinaryWord(), new BinaryTreeNode( enable ) ){
-}
-
-GridTreePaving::GridTreePaving( const Grid& theGrid, const Nat theExtent, BinaryTreeNode * pRootTreeNode ) :
-    GridTreeSubpaving( theGrid, theExtent, BinaryWord(), pRootTreeNode ){
-}
-
-GridTreePaving::GridTreePaving( const GridCell& theGridCell  ) :
-    GridTreeSubpaving( theGridCell.grid(), theGridCell.root_extent(), BinaryWord(), new BinaryTreeNode( false ) ){
-    this->adjoin(theGridCell);
-}
-
-GridTreePaving::GridTreePaving( const Nat theDimension, const Bool enable ) :
-    GridTreeSubpaving( Grid( theDimension, FloatDP(1.0_x,dp) ), 0, BinaryWord(), new BinaryTreeNode( enable )) {
-    //We want a [0,1]x...[0,1] cell in N dimensional space with no sxaling or shift of coordinates:
-    //1. Create a new non scaling grid with no shift of the coordinates
-    //2. The extent of the primary cell is zero, since is is [0,1]x...[0,1] itself
-    //3. The binary word that describes the path from the primary cell to the root
-    //   of the tree is empty, because any paving always has a primary cell as a root
-    //4. A new disabled binary tree node, gives us the root for the paving tree
-}
-
-GridTreePaving::GridTreePaving(const Grid& theGrid, const ExactBoxType & theLatticeBoxType ) :
-    GridTreeSubpaving( theGrid, GridCell::smallest_enclosing_primary_cell_extent( theLatticeBoxType ),
-                    BinaryWord(), new BinaryTreeNode( false ) ) {
-    //1. The main point here is that we have to compute the smallest primary cell that contains theBoundingBoxType
-    //2. This cell is defined by it's extent and becomes the root of the GridTreeSet
-    //3. ExactPoint 2. implies that the word to the root of GridTreeSubset should be set to
-    //   empty and we have only one disabled node in the binary tree
-}
-
-GridTreePaving::GridTreePaving( const Grid& theGrid, Nat theExtent, const BooleanArray& theTree, const BooleanArray& theEnabledCells ) :
-    GridTreeSubpaving( theGrid, theExtent, BinaryWord(), new BinaryTreeNode( theTree, theEnabledCells ) ) {
-    //Use the super class constructor and the binary tree constructed from the arrays: theTree and theEnabledCells
-}
-
-GridTreePaving::GridTreePaving( const GridTreePaving & theGridTreeSet ) :
-    GridTreeSubpaving( theGridTreeSet._theGridCell.grid(), theGridTreeSet._theGridCell.root_extent(),
-                    theGridTreeSet._theGridCell.word(), new BinaryTreeNode( *theGridTreeSet._pRootTreeNode )) {
-    //Call the super constructor: Create an exact copy of the tree, copy the bounding box
-}
-
-GridTreePaving& GridTreePaving::operator=( const GridTreePaving & theGridTreeSet ) {
-    //Delete the old tree and make a new one
-    if(this!=&theGridTreeSet) {
-        if( GridTreeSubpaving::_pRootTreeNode != nullptr){
-            delete GridTreeSubpaving::_pRootTreeNode;
-            GridTreeSubpaving::_pRootTreeNode = nullptr;
-        }
-        static_cast<GridTreeSubpaving&>(*this) =
-            GridTreeSubpaving( theGridTreeSet._theGridCell.grid(), theGridTreeSet._theGridCell.root_extent(),
-                            theGridTreeSet._theGridCell.word(), new BinaryTreeNode( *theGridTreeSet._pRootTreeNode ));
-    }
-    return *this;
-}
-
-GridTreePaving* GridTreePaving::clone() const {
-    return new GridTreePaving( *this );
-}
-
-GridTreePaving::~GridTreePaving() {
-    if( GridTreeSubpaving::_pRootTreeNode != nullptr){
-        delete GridTreeSubpaving::_pRootTreeNode;
-        GridTreeSubpaving::_pRootTreeNode = nullptr;
-    }
-}
-
-Void GridTreePaving::up_to_primary_cell( const Nat toPCellExtent ){
-    const Nat fromPCellExtent = this->root_cell().root_extent();
-
-    //The primary cell of this paving is lower then the one in the other paving so this
-    //paving's has to be rerooted to another primary cell and then we merge the pavings.
-    //1. Compute the path
-    BinaryWord primaryCellPath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), toPCellExtent, fromPCellExtent );
-    //2. Substitute the root node of the paiving with the extended tree
-    this->_pRootTreeNode = BinaryTreeNode::prepend_tree( primaryCellPath, this->_pRootTreeNode );
-    //3. Update the GridCell that corresponds to the root of this GridTreeSubset
-    this->_theGridCell = GridCell( this->_theGridCell.grid(), toPCellExtent, BinaryWord() );
-}
-
-BinaryTreeNode* GridTreePaving::align_with_cell( const Nat otherPavingPCellExtent, const Bool stop_on_enabled,
-                                                 const Bool stop_on_disabled, Bool & has_stopped ) {
-    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
-
-    //The current root node of the GridTreeSet
-    BinaryTreeNode * pBinaryTreeNode = this->_pRootTreeNode;
-
-    if( thisPavingPCellExtent > otherPavingPCellExtent ){
-
-        //The primary cell of this paving is higher then the one of the other paving.
-        //1. We locate the path to the primary cell node common with the other paving
-        BinaryWord primaryCellPath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), thisPavingPCellExtent, otherPavingPCellExtent );
-
-        //2. Locate the binary tree node corresponding to this primnary cell
-        Nat position = 0;
-        while( position < primaryCellPath.size() &&
-               !( has_stopped = ( ( pBinaryTreeNode->is_enabled() && stop_on_enabled ) ||
-                                  ( pBinaryTreeNode->is_disabled() && stop_on_disabled ) ) ) ){
-            //Split the node, if it is not a leaf it will not be changed
-            pBinaryTreeNode->split();
-            //Follow the next path step
-            pBinaryTreeNode = (primaryCellPath[position]) ? pBinaryTreeNode->right_node() : pBinaryTreeNode->left_node();
-            //Move to the next path element
-            position++;
-        }
-    } else {
-        if( thisPavingPCellExtent < otherPavingPCellExtent ) {
-            up_to_primary_cell( otherPavingPCellExtent );
-            pBinaryTreeNode = this->_pRootTreeNode;
-        } else {
-            //If we are rooted to the same primary cell, then there
-            //is nothing to be done, except adding the enabled cell
-        }
-    }
-    return pBinaryTreeNode;
-}
-
-Void GridTreePaving::_adjoin_cell( const Nat theCellRootExtent, BinaryWord const& theCellPath ) {
-    Bool has_stopped = false;
-    BinaryTreeNode* pBinaryTreeNode = this->align_with_cell( theCellRootExtent, true, false, has_stopped );
-    if( ! has_stopped ){
-        //Add the enabled cell to the binary tree.
-        pBinaryTreeNode->add_enabled( theCellPath );
-    }
-}
-
-
-Void GridTreePaving::_adjoin_outer_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
-                                                  const Nat max_mince_tree_depth,  const EffectiveEuclideanCompactSetInterface& theSet, BinaryWord * pPath ){
-    //Compute the cell corresponding to the current node
-    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
-
-    const EffectiveEuclideanOpenSetInterface* pOpenSet=dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(static_cast<const EuclideanSetInterfaceBase*>(&theSet));
-
-    if( definitely( theSet.separated( theCurrentCell.box() ) ) ) {
-        //DO NOTHING: We are in the node whoes representation in the original space is
-        //disjoint from pSet and thus there will be nothing added to this cell.
-    } else if( pOpenSet && definitely( pOpenSet->covers( theCurrentCell.box() ) ) ) {
-        pBinaryTreeNode->make_leaf(true);
-    } else {
-        //This node's cell is not disjoint from theSet, thus it is possible to adjoin elements
-        //of its outer approximation, unless this node is already and enabled leaf node.
-        if( pBinaryTreeNode->is_enabled() ){ //NOTE: A non-leaf node can not be enabled so this check suffices
-            //DO NOTHING: If it is enabled, then we can not add anything new to it.
-        } else {
-            //If the node is not enabled, so may be we can add something from the outer approximation of theSet.
-            if( pPath->size() < max_mince_tree_depth ){
-                //Since we still do not have the finest cells for the outer approximation of theSet, we split
-                pBinaryTreeNode->split(); //NOTE: splitting a non-leaf node does not do any harm
-                //Check the left branch
-                pPath->push_back(false);
-                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-                //Check the right branch
-                pPath->push_back(true);
-                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-            } else {
-                //We should not mince any further, so since the node is a leaf and
-                //it's cell is not disjoint from theSet, we mark the node as enabled.
-                if( !pBinaryTreeNode->is_leaf() ){
-                    //If the node is not leaf, then we make it an enabled one
-                    pBinaryTreeNode->make_leaf(true);
-                } else {
-                    //Just make the node enabled
-                    pBinaryTreeNode->set_enabled();
-                }
-            }
-        }
-    }
-    //Return to the previous level, since the initial evaluate is made
-    //with the empty word, we check that it is not yet empty.
-    if( pPath->size() > 0 ) {
-        pPath->pop_back();
-    }
-}
-
-Void GridTreePaving::_adjoin_outer_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
-                                                  const Nat max_mince_tree_depth,  const ValidatedEuclideanCompactSetInterface& theSet, BinaryWord * pPath ){
-    //Compute the cell correspomding to the current node
-    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
-
-    const EffectiveEuclideanOpenSetInterface* pOpenSet=dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(static_cast<const EuclideanSetInterfaceBase*>(&theSet));
-
-    if( definitely( theSet.separated( theCurrentCell.box() ) ) ) {
-        //DO NOTHING: We are in the node whoes representation in the original space is
-        //disjoint from pSet and thus there will be nothing added to this cell.
-    } else if( pOpenSet && definitely( pOpenSet->covers( theCurrentCell.box() ) ) ) {
-        pBinaryTreeNode->make_leaf(true);
-    } else {
-        //This node's cell is not disjoint from theSet, thus it is possible to adjoin elements
-        //of its outer approximation, unless this node is already and enabled leaf node.
-        if( pBinaryTreeNode->is_enabled() ){ //NOTE: A non-leaf node can not be enabled so this check suffices
-            //DO NOTHING: If it is enabled, then we can not add anything new to it.
-        } else {
-            //If the node is not enabled, so may be we can add something from the outer approximation of theSet.
-            if( pPath->size() < max_mince_tree_depth ){
-                //Since we still do not have the finest cells for the outer approximation of theSet, we split
-                pBinaryTreeNode->split(); //NOTE: splitting a non-leaf node does not do any harm
-                //Check the left branch
-                pPath->push_back(false);
-                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-                //Check the right branch
-                pPath->push_back(true);
-                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-            } else {
-                //We should not mince any further, so since the node is a leaf and
-                //it's cell is not disjoint from theSet, we mark the node as enabled.
-                if( !pBinaryTreeNode->is_leaf() ){
-                    //If the node is not leaf, then we make it an enabled one
-                    pBinaryTreeNode->make_leaf(true);
-                } else {
-                    //Just make the node enabled
-                    pBinaryTreeNode->set_enabled();
-                }
-            }
-        }
-    }
-    //Return to the previous level, since the initial evaluate is made
-    //with the empty word, we check that it is not yet empty.
-    if( pPath->size() > 0 ) {
-        pPath->pop_back();
-    }
-}
-
-// FIXME: This method can fail if we cannot determine which of a node's children overlaps
-// the set. In principle this can be solved by checking if one of the children overlaps
-// the set, before doing recursion, and if none overlaps then we mark the present node as
-// enabled and stop. Generally speaking, the present algorithm is not wrong, it also gives us
-// a lower approximation, but it is simply less accurate than it could be.
-// TODO:Think of another representation in terms of covers but not pavings, then this problem
-// can be cured in a different fashion.
-Void GridTreePaving::_adjoin_lower_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
-                                                  const Nat max_mince_tree_depth,  const EffectiveEuclideanOvertSetInterface& theSet, BinaryWord * pPath ){
-    //Compute the cell correspomding to the current node
-    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
-
-    if( definitely( theSet.overlaps( theCurrentCell.box() ) ) ) {
-        if( pPath->size() >= max_mince_tree_depth ) {
-            //We should not mince any further.
-            //If the cell is not a leaf, then some subset is enabled,
-            //so the lower approximation does not add any information.
-            //If the cell is a leaf, we mark it as enabled.
-            if( ! pBinaryTreeNode->has_enabled() ) {
-                pBinaryTreeNode->make_leaf(true);
-            }
-        } else {
-            //If the node is no enabled, so may be we can add something from the lower approximation of theSet.
-            //Since we still do not have the finest cells for the lower approximation of theSet, we split
-            pBinaryTreeNode->split(); //NOTE: splitting a non-leaf node does not do any harm
-            //Check the left branch
-            pPath->push_back(false);
-            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-            //Check the right branch
-            pPath->push_back(true);
-            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-        }
-    }
-    //Return to the previous level, since the initial evaluate is made
-    //with the empty word, we check that it is not yet empty.
-    if( pPath->size() > 0 ) {
-        pPath->pop_back();
-    }
-}
-
-Void GridTreePaving::_adjoin_lower_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
-                                                  const Nat max_mince_tree_depth,  const EffectiveEuclideanOpenSetInterface& theSet, BinaryWord * pPath ){
-    //Compute the cell corresponding to the current node
-    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
-
-    if( definitely( theSet.covers( theCurrentCell.box() ) ) ) {
-        pBinaryTreeNode->make_leaf(true);
-        pBinaryTreeNode->mince( max_mince_tree_depth - pPath->size() );
-    } else if ( definitely( theSet.overlaps( theCurrentCell.box() ) ) ) {
-        if( pPath->size() >= max_mince_tree_depth ) {
-            //We should not mince any further.
-            //If the cell is not a leaf, then some subset is enabled,
-            //so the lower approximation does not add any information.
-            //If the cell is a leaf, we mark it as enabled.
-            if( pBinaryTreeNode->is_leaf() ) {
-                pBinaryTreeNode->set_enabled();
-            }
-        } else {
-            //Since we still do not have the finest cells for the outer approximation of theSet, we split
-            pBinaryTreeNode->split();  //NOTE: splitting a non-leaf node does not do any harm
-
-            //Check the left branch
-            pPath->push_back(false);
-            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-            //Check the right branch
-            pPath->push_back(true);
-            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-        }
-    }
-    //Return to the previous level, since the initial evaluate is made
-    //with the empty word, we check that it is not yet empty.
-    if( pPath->size() > 0 ) {
-        pPath->pop_back();
-    }
-}
-
-Void GridTreePaving::adjoin_over_approximation( const ExactBoxType& theBoxType, const Nat numSubdivInDim ) {
-    // FIXME: This adjoins an outer approximation; change to ensure only overlapping cells are adjoined
-    for(DimensionType i=0; i!=theBoxType.dimension(); ++i) {
-        if(theBoxType[i].lower_bound()>=theBoxType[i].upper_bound()) {
-            ARIADNE_THROW(std::runtime_error,"GridTreeSet::adjoin_over_approximation(ExactBoxType,Nat)","ExactBoxType "<<theBoxType<<" has empty interior.");
-        }
-    }
-    this->adjoin_outer_approximation(theBoxType,numSubdivInDim);
-}
-
-Void GridTreePaving::adjoin_outer_approximation( const UpperBoxType& theBoxType, const Nat numSubdivInDim ) {
-    ExactBoxSetType theBoxSet=cast_exact_box(theBoxType);
-    EffectiveEuclideanCompactSetInterface const& theSet=theBoxSet;
-    this->adjoin_outer_approximation(theSet,numSubdivInDim);
-}
-
-Void GridTreePaving::adjoin_outer_approximation( const EffectiveEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
-    Grid theGrid( this->root_cell().grid() );
-    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
-
-    //1. Compute the smallest GridCell (corresponding to the primary cell)
-    //   that encloses the theSet (after it is mapped onto theGrid).
-    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theSet.bounding_box(), theGrid );
-    //Compute the extent of the primary cell for the outer approximation stepping up by the number of dimensions
-    const Nat outer_approx_primary_cell_extent = extent + theGrid.dimension();
-
-    //2. Align this paving and paving enclosing the provided set
-    Bool has_stopped = false;
-    BinaryTreeNode* pBinaryTreeNode = align_with_cell( outer_approx_primary_cell_extent, true, false, has_stopped );
-
-    //If the outer aproximation of the bounding box of the provided set is enclosed
-    //in an enabled cell of this paving, then there is nothing to be done. The latter
-    //is because adjoining the outer approx of the set will not change this paving.
-    if( ! has_stopped ){
-        //Compute the depth to which we must mince the outer approximation of the adjoining set.
-        //This depth is relative to the root of the constructed paving, which has been alligned
-        //with the binary tree node pBinaryTreeNode.
-        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, outer_approx_primary_cell_extent, 0 );
-
-        //Adjoin the outer approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
-        _adjoin_outer_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, outer_approx_primary_cell_extent,
-                                     max_mince_tree_depth, theSet, pEmptyPath );
-
-        delete pEmptyPath;
-    }
-}
-
-Void GridTreePaving::adjoin_outer_approximation( const ValidatedEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
-    Grid theGrid( this->root_cell().grid() );
-    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
-
-    //1. Compute the smallest GridCell (corresponding to the primary cell)
-    //   that encloses the theSet (after it is mapped onto theGrid).
-    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theSet.bounding_box(), theGrid );
-    //Compute the extent of the primary cell for the outer approximation stepping up by the number of dimensions
-    const Nat outer_approx_primary_cell_extent = extent + theGrid.dimension();
-
-    //2. Align this paving and paving enclosing the provided set
-    Bool has_stopped = false;
-    BinaryTreeNode* pBinaryTreeNode = align_with_cell( outer_approx_primary_cell_extent, true, false, has_stopped );
-
-    //If the outer aproximation of the bounding box of the provided set is enclosed
-    //in an enabled cell of this paving, then there is nothing to be done. The latter
-    //is because adjoining the outer approx of the set will not change this paving.
-    if( ! has_stopped ){
-        //Compute the depth to which we must mince the outer approximation of the adjoining set.
-        //This depth is relative to the root of the constructed paving, which has been alligned
-        //with the binary tree node pBinaryTreeNode.
-        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, outer_approx_primary_cell_extent, 0 );
-
-        //Adjoin the outer approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
-        _adjoin_outer_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, outer_approx_primary_cell_extent,
-                                     max_mince_tree_depth, theSet, pEmptyPath );
-
-        delete pEmptyPath;
-    }
-}
-
-// TODO:Think of another representation in terms of covers but not pavings, then the implementation
-// will be different, this is why, for now we do not fix these things.
-Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanLocatedSetInterface& theSet, const Nat numSubdivInDim ) {
-    this->adjoin_lower_approximation( theSet, cast_exact_box(theSet.bounding_box()), numSubdivInDim );
-}
-
-Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanOvertSetInterface& theSet, const Nat heightInDim, const Nat numSubdivInDim ) {
-    Grid theGrid( this->root_cell().grid() );
-    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
-
-    //Align this paving and paving at the given extent
-    Bool has_stopped = false;
-    BinaryTreeNode* pBinaryTreeNode = align_with_cell( heightInDim, true, false, has_stopped );
-
-    //If the lower aproximation of the bounding box of the provided set is enclosed
-    //in an enabled cell of this paving, then there is nothing to be done. The latter
-    //is because adjoining the outer approx of the set will not change this paving.
-    if( ! has_stopped ){
-        //Compute the depth to which we must mince the outer approximation of the adjoining set.
-        //This depth is relative to the root of the constructed paving, which has been alligned
-        //with the binary tree node pBinaryTreeNode.
-        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, heightInDim, 0 );
-
-        //Adjoin the outer approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
-        //const EffectiveEuclideanRegularSetInterface* theRegularVersionOfSet = dynamic_cast<const EffectiveEuclideanRegularSetInterface*>(&theSet);
-        const EffectiveEuclideanOpenSetInterface* theOpenVersionOfSet = dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(&theSet);
-        //const EffectiveEuclideanLocatedSetInterface* theLocatedVersionOfSet = dynamic_cast<const EffectiveEuclideanLocatedSetInterface*>(&theSet);
-        const EffectiveEuclideanOvertSetInterface* theOvertVersionOfSet = dynamic_cast<const EffectiveEuclideanOvertSetInterface*>(&theSet);
-        if( theOpenVersionOfSet ) {
-            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOpenVersionOfSet, pEmptyPath );
-        } else {
-            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOvertVersionOfSet, pEmptyPath );
-        }
-        delete pEmptyPath;
-    }
-}
-
-Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanOvertSetInterface& theSet, const ExactBoxType& theBoundingBoxType, const Nat numSubdivInDim ) {
-    Grid theGrid( this->root_cell().grid() );
-    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
-    ARIADNE_ASSERT( theBoundingBoxType.dimension() == this->root_cell().dimension() );
-
-    //Compute the smallest the primary cell that encloses the theSet (after it is mapped onto theGrid).
-    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theBoundingBoxType, theGrid );
-
-    //Adjoin the lower approximation with the bounding cell being the primary cell at the given extent.
-    adjoin_lower_approximation( theSet, extent, numSubdivInDim );
-}
-
-Void GridTreePaving::_adjoin_inner_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
-                                                  const Nat max_mince_tree_depth, const EffectiveEuclideanOpenSetInterface& theSet, BinaryWord * pPath ) {
-    //Compute the cell corresponding to the current node
-    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
-
-    // If the set if closed, then we can use the separated(Box) method to speed-up computation
-    const EffectiveEuclideanClosedSetInterface* theClosedSet = dynamic_cast<const EffectiveEuclideanClosedSetInterface*>(&theSet);
-
-    if( ! pBinaryTreeNode->is_enabled() ) {
-        //If this it is not an enabled leaf node then we can add something to it.
-        if( definitely( theSet.covers( theCurrentCell.box() ) ) ) {
-            //If this node's box is a subset of theSet then it belongs to the inner approximation
-            //Thus we need to make it an enabled leaf and then do the mincing to the maximum depth
-            pBinaryTreeNode->make_leaf( true );
-        } else if ( theClosedSet && !definitely( theClosedSet->separated( theCurrentCell.box() ) ) ) {
-            //If theSet overlaps with the box corresponding to the given node in the original
-            //space, then there might be something to add from the inner approximation of theSet.
-            if( pPath->size() >= max_mince_tree_depth ) {
-                //DO NOTHING: Since it is the maximum depth to which we were allowed to mince
-                //and we know that the node's box only overlaps with theSet but is not it's
-                //subset we have to exclude it from the inner approximation of theSet.
-            } else {
-                //Since we still do not have the finest cells for the outer approximation of theSet, we split
-                pBinaryTreeNode->split();  //NOTE: splitting a non-leaf node does not do any harm
-
-                //Check the left branch
-                pPath->push_back(false);
-                _adjoin_inner_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-                //Check the right branch
-                pPath->push_back(true);
-                _adjoin_inner_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-            }
-        } else {
-            //DO NOTHING: the node's box is disjoint from theSet and thus it or it's
-            //sub nodes can not be the part of the inner approximation of theSet.
-        }
-    } else {
-        //DO NOTHING: If this is an enabled leaf node we are in, then there is nothing to add to it
-        //TODO: We could mince the node until the depth (max_mince_tree_depth - pPath->size()) but I do
-        //not know if it makes any sence to do this, since this does not change the result.
-    }
-
-    //Return to the previous level, since the initial evaluate is made
-    //with the empty word, we check that it is not yet empty.
-    if( pPath->size() > 0 ) {
-        pPath->pop_back();
-    }
-}
-
-Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const Nat extent, const Nat numSubdivInDim ) {
-    Grid theGrid( this->root_cell().grid() );
-    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
-
-    //Align this paving and paving at the given extent
-    Bool has_stopped = false;
-    BinaryTreeNode* pBinaryTreeNode = align_with_cell( extent, true, false, has_stopped );
-
-    //If the inner aproximation of the bounding box of the provided set is enclosed
-    //in an enabled cell of this paving, then there is nothing to be done. The latter
-    //is because adjoining the inner approx of the set will not change this paving.
-    if( ! has_stopped ){
-        //Compute the depth to which we must mince the inner approximation of the adjoining set.
-        //This depth is relative to the root of the constructed paving, which has been alligned
-        //with the binary tree node pBinaryTreeNode.
-        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, extent, 0 );
-
-        //Adjoin the inner approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
-        _adjoin_inner_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, extent, max_mince_tree_depth, theSet, pEmptyPath );
-        delete pEmptyPath;
-    }
-}
-
-Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const ExactBoxType& theBoundingBoxType, const Nat numSubdivInDim ) {
-    Grid theGrid( this->root_cell().grid() );
-    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
-    ARIADNE_ASSERT( theBoundingBoxType.dimension() == this->root_cell().dimension() );
-
-    //Compute the smallest the primary cell that encloses the theSet (after it is mapped onto theGrid).
-    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theBoundingBoxType, theGrid );
-
-    //Compute the extent of the smallest primary cell that encloses the box
-    //Note that, since we will need to adjoin inner approximation bounded by
-    //the theBoundingBoxType, it is enough to take this cell's extent and not to
-    //go higher. Remember that the inner approximations consists of the cells
-    //that are subsets of the set theSet Adjoin the inner approximation with
-    //the bounding cell being the primary cell at the given extent.
-    adjoin_inner_approximation( theSet, extent, numSubdivInDim );
-}
-
-Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanSetInterface& theSet, const Nat numSubdivInDim ) {
-    EffectiveEuclideanOpenSetInterface const& theOpenSet = theSet;
-    ExactBoxType theBoundingBox = cast_exact_box(theSet.bounding_box());
-    this -> adjoin_inner_approximation(theOpenSet, theBoundingBox, numSubdivInDim);
-}
-
-Void GridTreePaving::adjoin_inner_approximation( const LowerBoxType& theBoxType, const Nat numSubdivInDim ) {
-    ExactBoxSetType theBoxSet=cast_exact_box(theBoxType);
-    this->adjoin_inner_approximation(theBoxSet,theBoxSet,numSubdivInDim);
-}
-
-Void GridTreePaving::restrict_to_lower( const GridTreeSubpaving& theOtherSubPaving ){
-    //The root of the binary tree of the current Paving
-    BinaryTreeNode * pBinaryTreeNode = this->_pRootTreeNode;
-
-    //The primary cell of this paving is higher then the one of the other paving.
-    //1. We locate the path to the primary cell node common with the other paving
-    BinaryWord rootNodePath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), this->root_cell().root_extent(), theOtherSubPaving.root_cell().root_extent() );
-
-    //2. Add the suffix path from the primary cell to the root node of
-    //theOtherSubPaving. This is needed in order to be able to reach this root.
-    rootNodePath.append( theOtherSubPaving.root_cell().word() );
-
-    //3. Restrict this binary tree to the other one assuming the path prefix rootNodePath
-    Nat position = 0;
-    //This will point to the children nodes that do not have chance for being in the restriction
-    BinaryTreeNode * pBranchToDisable = nullptr;
-    //Iterate the path, get to the root cell of theOtherSubPaving
-    while( position < rootNodePath.size() ){
-        if( pBinaryTreeNode->is_leaf() ){
-            //If we are in the leaf node then
-            if( pBinaryTreeNode->is_disabled() ){
-                //if it is disabled, then the intersection with
-                //the other set is empty so we just return
-                return;
-            } else {
-                //If it is an enabled leaf node then, because we still need to go further to reach the root cell of
-                //theOtherSubPaving, we split this node and disable the leaf that does not intersect with the other set
-                pBinaryTreeNode->split();
-            }
-        } else {
-            //If this is not a leaf node then we need to follow the path and disable the child
-            //node that is not on the path, because it will not make it into the intersection
-        }
-        //Follow the path and diable the other branch
-        if( rootNodePath[position] ){
-            pBranchToDisable = pBinaryTreeNode->left_node();
-            pBinaryTreeNode = pBinaryTreeNode->right_node();
-        } else {
-            pBranchToDisable = pBinaryTreeNode->right_node();
-            pBinaryTreeNode = pBinaryTreeNode->left_node();
-        }
-        //Move the unused branch into a disabled leaf node
-        pBranchToDisable->make_leaf(false);
-
-        //Move to the next path element
-        position++;
-    }
-    if( pBinaryTreeNode->is_enabled() ){
-        //If we ended up in a leaf node that is disabled, this meand that it is the only enabled node
-        //in this GridTreeSet. At this point it corresponds to the root node of the theOtherSubPaving
-        //and since we need to do the restriction to that set, we just need to copy it to this node.
-        pBinaryTreeNode->copy_from( theOtherSubPaving.binary_tree() );
-        //Return since there is nothing else we need to do
-        return;
-    } else {
-        if( pBinaryTreeNode->is_disabled() ){
-            //if we are in a disabled leaf node the the result of the
-            //restriction is an empty set and we just return
-            return;
-        } else {
-            //If it is two binary tree we have, then we need to restrict
-            //pBinaryTreeNode to theOtherSubPaving._pRootTreeNode
-            BinaryTreeNode::restrict( pBinaryTreeNode, theOtherSubPaving.binary_tree() );
-        }
-    }
-}
-
-Void GridTreePaving::remove_from_lower( const GridTreeSubpaving& theOtherSubPaving ){
-    //The root of the binary tree of the current Paving
-    BinaryTreeNode * pBinaryTreeNode = this->_pRootTreeNode;
-
-    //The primary cell of this paving is higher then the one of the other paving.
-    //1. We locate the path to the primary cell node common with the other paving
-    BinaryWord rootNodePath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), this->root_cell().root_extent(), theOtherSubPaving.root_cell().root_extent() );
-
-    //2. Add the suffix path from the primary cell to the root node of
-    //theOtherSubPaving. This is needed in order to be able to reach this root.
-    rootNodePath.append( theOtherSubPaving.root_cell().word() );
-
-    //3. Remove theOtherSubPaving from this binary tree assuming the path prefix rootNodePath
-    Nat position = 0;
-    //Iterate the path, get to the root cell of theOtherSubPaving
-    while( position < rootNodePath.size() ){
-        if( pBinaryTreeNode->is_leaf() ){
-            //If we are in the leaf node then
-            if( pBinaryTreeNode->is_disabled() ){
-                //if it is disabled, then we are removing from not-enabled cells
-                //so there is nothing to be done and thus we simply terminate
-                return;
-            } else {
-                //If it is an enabled leaf node then, because we still need to go further
-                //to reach the root cell of theOtherSubPaving, we split this node
-                pBinaryTreeNode->split();
-            }
-        } else {
-            //If this is not a leaf node then we need to follow the path and then do removal
-        }
-        //Follow the path and do the removal, the other branch stays intact
-        pBinaryTreeNode = (rootNodePath[position]) ? pBinaryTreeNode->right_node() : pBinaryTreeNode->left_node();
-
-        //Move to the next path element
-        position++;
-    }
-    if( pBinaryTreeNode->is_disabled() ){
-        //If we are in a disabled leaf node the the result of the
-        //removal does not change this set and so we just return
-        return;
-    } else {
-        //We have two aligned binary trees we have to subtract enabled
-        //nodes of theOtherSubPaving._pRootTreeNode from pBinaryTreeNode
-        BinaryTreeNode::remove( pBinaryTreeNode, theOtherSubPaving.binary_tree() );
-    }
-}
-
-Void GridTreePaving::clear(  ) {
-    // TODO: Pieter: This implementation may not be optimal. Please could you
-    // check this, Ivan.
-    *this=GridTreePaving(this->grid());
-}
-
-
-Void GridTreePaving::restrict( const GridTreeSubpaving& theOtherSubPaving ) {
-    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
-    const Nat otherPavingPCellExtent = theOtherSubPaving.root_cell().root_extent();
-
-    ARIADNE_ASSERT( this->grid() == theOtherSubPaving.grid() );
-
-    //In case theOtherSubPaving has the primary cell that is higher then this one
-    //we extend it, i.e. reroot it to the same extent primary cell.
-    if( thisPavingPCellExtent < otherPavingPCellExtent ){
-        up_to_primary_cell( otherPavingPCellExtent );
-    }
-
-    //Now it is simple to restrict this set to another, since this set's
-    //primary cell is not lower then for the other one
-    restrict_to_lower( theOtherSubPaving );
-}
-
-Void GridTreePaving::remove( const GridCell& theCell ) {
-    ARIADNE_ASSERT( this->grid() == theCell.grid() );
-
-    //If needed, extend the tree of this paving and then find it's the
-    //primary cell common with the primary cell of the provided GridCell
-    //If we encounter a disabled node then we do not move on, since then
-    //there is nothing to remove, otherwise we split the node and go down
-    Bool has_stopped = false;
-    BinaryTreeNode* pCurrentPrimaryCell = align_with_cell( theCell.root_extent(), false, true, has_stopped );
-
-    if( ! has_stopped ) {
-        //Follow theCell.word() path in the tree rooted to pCommonPrimaryCell,
-        //do that until we encounter a leaf node, then stop
-        BinaryWord path = theCell.word();
-        Nat position = 0;
-        for(; position < path.size(); position++ ) {
-            //If we are in a leaf node then
-            if( pCurrentPrimaryCell->is_leaf() ) {
-                break;
-            }
-            pCurrentPrimaryCell = path[position] ? pCurrentPrimaryCell->right_node() : pCurrentPrimaryCell->left_node();
-        }
-
-        //Check if we stopped because it was a leaf node
-        if( pCurrentPrimaryCell->is_leaf() ) {
-            if( pCurrentPrimaryCell->is_enabled() ) {
-                //If the node is a leaf and enabled then continue following the path by splitting nodes
-                for(; position < path.size(); position++ ) {
-                    pCurrentPrimaryCell->split();
-                    pCurrentPrimaryCell = path[position] ? pCurrentPrimaryCell->right_node() : pCurrentPrimaryCell->left_node();
-                }
-                //Disable the sub-tree rooted to the tree node we navigated to
-                pCurrentPrimaryCell->set_disabled();
-            } else {
-                //DO NOTHING: The leaf node turns out to be already off,
-                //so there is nothing to remove from
-            }
-        } else {
-            //We followed the path to the cell, but we are still in some non-leaf node at this
-            //point it does no matter what is below, and we just remove the entire sub-tree.
-            pCurrentPrimaryCell->make_leaf( false );
-        }
-    } else {
-        //DO NOTHING: If we stopped it means that we were in a
-        //disabled node, so there is nothing to remove from
-    }
-}
-
-Void GridTreePaving::remove( const GridTreeSubpaving& theOtherSubPaving ) {
-    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
-    const Nat otherPavingPCellExtent = theOtherSubPaving.root_cell().root_extent();
-
-    ARIADNE_ASSERT( this->grid() == theOtherSubPaving.grid() );
-
-    //In case theOtherSubPaving has the primary cell that is higher then this one
-    //we extend it, i.e. reroot it to the same extent primary cell.
-    if( thisPavingPCellExtent < otherPavingPCellExtent ){
-        up_to_primary_cell( otherPavingPCellExtent );
-    }
-
-    //Now it is simple to remove theOtherSubPaving elements from this set,
-    //since this set's primary cell is not lower then for the other one.
-    remove_from_lower( theOtherSubPaving );
-}
-
-Void GridTreePaving::restrict_to_extent( const Nat theExtent ) {
-    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
-
-    if( thisPavingPCellExtent > theExtent){
-        // ARIADNE_WARN("restricting GridTreeSet of extent " << this->root_cell().root_extent() << " to extent " << theExtent << ".");
-
-        BinaryWord pathToPCell = GridCell::primary_cell_path( this->dimension(), thisPavingPCellExtent, theExtent );
-
-        //Go throught the tree and disable all the leaves that
-        //are not rooted to the primary cell defined by this path
-        BinaryTreeNode * pCurrentNode = _pRootTreeNode;
-        for( SizeType i = 0; i < pathToPCell.size(); i++ ) {
-            if( pCurrentNode->is_leaf() ){
-                if( pCurrentNode->is_enabled() ){
-                    //If we are in an enabled leaf node then we split.
-                    //There are still cells to remove.
-                    pCurrentNode->split();
-                } else {
-                    //If we are in a disabled leaf node then we stop.
-                    //There is nothing to be done, because there are
-                    //no more enabled cells to remove
-                    break;
-                }
-            }
-            //If we are here, then we are in a non-leaf node
-            if( pathToPCell[i] ){
-                //Go to the right, and remove anything on the left
-                pCurrentNode->left_node()->make_leaf(false);
-                pCurrentNode = pCurrentNode->right_node();
-            } else {
-                //Go to the left, and remove anything on the right
-                pCurrentNode->right_node()->make_leaf(false);
-                pCurrentNode = pCurrentNode->left_node();
-            }
-        }
-    }
-}
-
-//************************************FRIENDS OF GridTreeSet*****************************************/
-
-GridTreePaving outer_approximation(const ExactBoxType& theBoxType, const Grid& theGrid, const Nat numSubdivInDim) {
-    ExactBoxSetType theBoxSet=theBoxType;
-    EffectiveEuclideanCompactSetInterface const& theSet=theBoxSet;
-    return outer_approximation(theSet,theGrid,numSubdivInDim);
-}
-
-GridTreePaving outer_approximation(const ExactBoxType& theBoxType, const Nat numSubdivInDim) {
-    return outer_approximation(theBoxType, Grid(theBoxType.dimension()), numSubdivInDim);
-}
-
-GridTreePaving outer_approximation( const EffectiveEuclideanCompactSetInterface& theSet, const Grid& theGrid, const Nat numSubdivInDim ) {
-    GridTreePaving result( theGrid );
-    result.adjoin_outer_approximation( theSet, numSubdivInDim );
-    return result;
-}
-
-GridTreePaving outer_approximation( const EffectiveEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
-    Grid theGrid( theSet.dimension() );
-    return outer_approximation( theSet, theGrid, numSubdivInDim );
-}
-
-GridTreePaving outer_approximation( const ValidatedEuclideanCompactSetInterface& theSet, const Grid& theGrid, const Nat numSubdivInDim ) {
-    GridTreePaving result( theGrid );
-    result.adjoin_outer_approximation( theSet, numSubdivInDim );
-    return result;
-}
-
-GridTreePaving outer_approximation( const ValidatedEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
-    Grid theGrid( theSet.dimension() );
-    return outer_approximation( theSet, theGrid, numSubdivInDim );
-}
-
-GridTreePaving inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const Grid& theGrid, const Nat extent, const Nat numSubdivInDim ) {
-    GridTreePaving result( theGrid );
-    result.adjoin_inner_approximation( theSet, extent, numSubdivInDim );
-    return result;
-}
-
-GridTreePaving inner_approximation( const EffectiveEuclideanSetInterface& theSet, const Grid& theGrid, const Nat numSubdivInDim ) {
-    GridTreePaving result( theGrid );
-    result.adjoin_inner_approximation( theSet, numSubdivInDim );
-    return result;
-}
-
-GridTreePaving inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const Grid& theGrid, const ExactBoxType& bounding_box, const Nat numSubdivInDim ) {
-    GridTreePaving result( theGrid );
-    result.adjoin_inner_approximation( theSet, bounding_box, numSubdivInDim );
-    return result;
-}
-
-GridTreePaving join( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
-
-    //Compute the highest primary cell
-    const Nat extentSet1 = theSet1.root_cell().root_extent();
-    const Nat extentSet2 = theSet2.root_cell().root_extent();
-    const Nat maxPCExtent = ( extentSet1 <  extentSet2 ) ? extentSet2 : extentSet1;
-
-    //Create the resulting GridTreeSet
-    GridTreePaving resultSet( theSet1.grid(), maxPCExtent, new BinaryTreeNode() );
-
-    //Adjoin the sets
-    resultSet.adjoin( theSet1 );
-    resultSet.adjoin( theSet2 );
-
-    //Return the result
-    return resultSet;
-}
-
-GridTreePaving intersection( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
-
-    //Compute the highest primary cell
-    const Nat extentSet1 = theSet1.root_cell().root_extent();
-    const Nat extentSet2 = theSet2.root_cell().root_extent();
-    const Nat maxPCExtent = ( extentSet1 <  extentSet2 ) ? extentSet2 : extentSet1;
-
-    //Create the resulting GridTreeSet
-    GridTreePaving resultSet( theSet1.grid(), maxPCExtent, new BinaryTreeNode() );
-
-    //Adjoin the first set
-    resultSet.adjoin( theSet1 );
-    //Intersect the result with the second set
-    resultSet.restrict( theSet2 );
-
-    //Return the result
-    return resultSet;
-}
-
-GridTreePaving difference( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
-
-    //Compute the highest primary cell
-    const Nat extentSet1 = theSet1.root_cell().root_extent();
-    const Nat extentSet2 = theSet2.root_cell().root_extent();
-    const Nat maxPCExtent = ( extentSet1 <  extentSet2 ) ? extentSet2 : extentSet1;
-
-    //Create the resulting GridTreeSet
-    GridTreePaving resultSet( theSet1.grid(), maxPCExtent, new BinaryTreeNode() );
-
-    //Adjoin the first set
-    resultSet.adjoin( theSet1 );
-    //Remove the second set from the result set
-    resultSet.remove( theSet2 );
-
-    //Return the result
-    return resultSet;
-}
-
-
-
-struct LatticeCell {
-    DimensionType _dim;
-    Nat _root;
-    BinaryWord _word;
-};
-
-
-
-BinaryWord product_word(GridCell const& gc1, GridCell const& gc2) {
-    Nat extent = std::max(gc1.root_extent(),gc2.root_extent());
-    Int h1=static_cast<Int>(gc1.root_extent());
-    Int h2=static_cast<Int>(gc2.root_extent());
-    DimensionType n1=gc1.dimension();
-    DimensionType n2=gc2.dimension();
-    Int r1=gc1.depth()/static_cast<Int>(gc1.dimension()); // refinements
-    BinaryWord const& w1=gc1.word();
-    BinaryWord const& w2=gc2.word();
-    BinaryWord word;
-    SizeType i1=0u, i2=0u;
-    Int level=-static_cast<Int>(extent);
-    while (level < r1) {
-        if (-level>h1) {
-            for(DimensionType j=0; j!=n1; ++j) { word.append(level%2); }
-        } else {
-            for(DimensionType j=0; j!=n1; ++j) { word.append(w1[i1]); ++i1; }
-        }
-        if (-level>h2) {
-            for(DimensionType j=0; j!=n2; ++j) { word.append(level%2); }
-        } else {
-            for(DimensionType j=0; j!=n2; ++j) { word.append(w2[i2]); ++i2; }
-        }
-        ++level;
-    }
-    return word;
-}
-
-// The product of two cells of the same depth
-GridCell product(GridCell const& gc1, GridCell const& gc2) {
-    ARIADNE_ASSERT_MSG(gc1.depth()*static_cast<Int>(gc2.dimension())==gc2.depth()*static_cast<Int>(gc1.dimension()),"Computing product of grid cells "<<gc1<<" and "<<gc2<<" which do not have the same depth in each dimension.");
-    GridCell r(join(gc1.grid(),gc2.grid()),std::max(gc1.root_extent(),gc2.root_extent()),product_word(gc1,gc2));
-//    std::cerr<<"r="<<r<<"\nr.box()="<<r.box()<<", product(bx1,bx2)="<<product(gc1.box(),gc2.box())<<"\n";
-//    std::cerr<<"r-codes="<<BinaryCode(tree_height,word).split(n1+n2)<<"\n";
-//    std::cerr<<"gc1-codes="<<BinaryCode(gc1.tree_height(),gc1.word()).split(n1)<<"\n";
-//    std::cerr<<"gc2-codes="<<BinaryCode(gc2.tree_height(),gc2.word()).split(n2)<<"\n";
-    ARIADNE_ASSERT(r.box()==product(gc1.box(),gc2.box()));
-    return r;
-}
-
-// The product of two cells of the same depth
-GridTreePaving product(GridTreeSubpaving const& theSet1, GridTreeSubpaving const& theSet2) {
-    GridTreePaving result(join(theSet1.grid(),theSet2.grid()));
-    for (GridCell const& theCell1 : theSet1) {
-        for (GridCell const& theCell2 : theSet2) {
-            result._adjoin_cell(std::max(theCell1.root_extent(),theCell2.root_extent()),product_word(theCell1,theCell2));
-        }
-    }
-    return result;
-}
-
-// The product of two cells of the same depth
-GridTreePaving product(GridCell const& theCell1, GridTreeSubpaving const& theSet2) {
-    GridTreePaving result(join(theCell1.grid(),theSet2.grid()));
-    for (GridCell const& theCell2 : theSet2) {
-        result.adjoin(product(theCell1,theCell2));
-    }
-    return result;
-}
-
-Void draw(CanvasInterface& theGraphic, const Projection2d& theProjection, const GridCell& theGridCell) {
-    theGridCell.box().draw(theGraphic,theProjection);
-}
-
-Void draw(CanvasInterface& theGraphic, const Projection2d& theProjection, const GridTreePaving& theGridTreeSet) {
-    for(GridTreePaving::ConstIterator iter=theGridTreeSet.begin(); iter!=theGridTreeSet.end(); ++iter) {
-        iter->box().draw(theGraphic,theProjection);
-    }
-}
-
-Void draw(CanvasInterface& theGraphic, const Projection2d& theProjection, const EffectiveEuclideanCompactSetInterface& theSet) {
-    static const Int DRAWING_DEPTH=16;
-    draw(theGraphic,theProjection,outer_approximation(theSet,Grid(theSet.dimension()),DRAWING_DEPTH));
-}
-
-OutputStream& operator<<(OutputStream& os, const GridTreePaving& theGridTreeSet) {
-    const GridTreeSubpaving& theGridTreeSubset = theGridTreeSet;
-    return os << "GridTreeSet( " << theGridTreeSubset << " )";
-}
-
-template<class X> Vector<X> project(Vector<X> const& v, const Array<SizeType>& prj) {
-    return Vector<X>(prj.size(),[&](SizeType i){return v[prj[i]];});
-}
-
-Grid project(Grid const& grd, Array<SizeType> const& prj) {
-    return Grid(project(grd.origin(),prj),project(grd.lengths(),prj));
-}
-
-GridTreePaving image(const GridTreePaving& theSet, const Projection& theProjection) {
-    Grid resultGrid=project(theSet.grid(),theProjection.indices());
-    GridTreePaving theResultSet(resultGrid);
-    for (GridCell const& theCell : theSet) {
-        BinaryWord const& theWord = theCell.word();
-        assert(theWord.size() % theSet.dimension() == 0);
-        BinaryWord resultWord;
-        SizeType n=theWord.size()/theSet.dimension()*theResultSet.dimension();
-        resultWord.reserve(n);
-        for (SizeType i=0; i!=n; ++i) {
-            resultWord.append(theWord[theProjection[i%theResultSet.dimension()]]);
-        }
-        theResultSet._adjoin_cell(theCell.root_extent(),resultWord);
-    }
-    theResultSet.recombine();
-    return theResultSet;
-}
-
-
-GridTreePaving outer_skew_product(GridTreePaving const& gtp1, Grid const& g2, ValidatedVectorMultivariateFunction const& f) {
-    Grid g1=gtp1.grid();
-    Nat tree_depth = gtp1.tree_depth();
-    Nat fineness=tree_depth/g1.dimension()-gtp1.root_cell().root_extent();
-
-    const_cast<GridTreePaving&>(gtp1).mince(fineness);
-    GridTreePaving gtp2(g2);
-    GridTreePaving r(join(g1,g2));
-
-    for (GridCell gc1 : gtp1) {
-        ValidatedConstrainedImageSet s2(gc1.box(),f);
-        gtp2.adjoin_outer_approximation(s2,fineness);
-        gtp2.mince(fineness);
-        for (GridCell gc2 : gtp2) {
-            r.adjoin(product(gc1,gc2));
-        }
-        gtp2.clear();
-    }
-    r.recombine();
-    return r;
-}
-
-
-} // namespace Ariadne
-
+/***************************************************************************
+ *            geometry/grid_paving.cpp
+ *
+ *  Copyright  2008-20  Ivan S. Zapreev, Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+#include "function/functional.hpp"
+#include "config.hpp"
+
+#include <iostream>
+#include <iomanip>
+
+#include "utility/macros.hpp"
+#include "utility/exceptions.hpp"
+#include "utility/stlio.hpp"
+#include "function/projection.hpp"
+#include "geometry/function_set.hpp"
+#include "geometry/list_set.hpp"
+#include "geometry/grid_paving.hpp"
+#include "geometry/binary_tree.hpp"
+
+#include "geometry/set_interface.hpp"
+
+
+namespace Ariadne {
+
+Bool subset( const GridCell& theCellOne, const GridCell& theCellTwo,
+             BinaryWord * pPathPrefixOne, BinaryWord * pPathPrefixTwo, Nat * pPrimaryCellExtent);
+
+
+//****************************************GridAbstractCell*******************************************/
+
+LatticeBoxType GridAbstractCell::primary_cell_lattice_box( const Nat theExtent, const dimension_type dimensions ) {
+    Int leftBottomCorner = 0, rightTopCorner = 1;
+    //The zero level coordinates are known, so we need to iterate only for higher level primary cells
+    for(Nat i = 1; i <= theExtent; i++){
+        primary_cell_at_extent(i, leftBottomCorner, rightTopCorner);
+    }
+    // 1.2 Constructing and return the box defining the primary cell (relative to the grid).
+
+    return Vector< ExactIntervalType >( dimensions, ExactIntervalType( leftBottomCorner, rightTopCorner ) );
+}
+
+Nat GridAbstractCell::smallest_enclosing_primary_cell_extent( const LatticeBoxType& theLatticeBoxType ) {
+    const dimension_type dimensions = theLatticeBoxType.size();
+    Int leftBottomCorner = 0, rightTopCorner = 1;
+    Nat extent = 0;
+    //The zero level coordinates are known, so we need to iterate only for higher level primary cells
+    do{
+        //Check if the given box is a subset of a primary cell
+        Box< ExactIntervalType > primaryCellBoxType( dimensions, ExactIntervalType( leftBottomCorner, rightTopCorner ) );
+        if(  inside(theLatticeBoxType, primaryCellBoxType ) ) {
+            //If yes then we are done
+            break;
+        }
+        //Otherwise increase the extent and recompute the new borders
+        primary_cell_at_extent( ++extent, leftBottomCorner, rightTopCorner);
+    }while( true );
+
+    return extent;
+}
+
+Nat GridAbstractCell::smallest_enclosing_primary_cell_extent( const UpperBoxType& theBoxType, const Grid& theGrid) {
+    Vector<ExactIntervalType> theLatticeBoxType( theBoxType.size() );
+    //Convert the box to theGrid coordinates
+    for( SizeType i = 0; i != theBoxType.size(); ++i ) {
+        theLatticeBoxType[i] = cast_exact_interval( ( theBoxType[i] - cast_exact(theGrid.origin()[i])) / cast_exact(theGrid.lengths()[i]) );
+    }
+    //Compute and return the smallest primary cell, enclosing this box on the grid
+    return smallest_enclosing_primary_cell_extent( theLatticeBoxType );
+}
+
+ExactBoxType GridAbstractCell::lattice_box_to_space(const LatticeBoxType & theLatticeBoxType, const Grid& theGrid ){
+    const DimensionType dimensions = theGrid.dimension();
+    ExactBoxType theTmpBoxType( dimensions );
+
+    Vector<FloatDP> theGridOrigin( theGrid.origin() );
+    Vector<FloatDP> theGridLengths( theGrid.lengths() );
+
+    for(DimensionType current_dimension = 0; current_dimension < dimensions; current_dimension ++){
+        const FloatDP theDimLength = theGridLengths[current_dimension];
+        const FloatDP theDimOrigin = theGridOrigin[current_dimension];
+        //Recompute the new dimension coordinates, detaching them from the grid
+        //Compute lower and upper bounds separately, and then set the box lower
+        //and upper values simultaneously to prevent lower temporarily higher than upper.
+        FloatDP lower = add(approx, theDimOrigin, mul(approx, theDimLength, theLatticeBoxType[current_dimension].lower_bound() ) );
+        FloatDP upper = add(approx, theDimOrigin, mul(approx, theDimLength, theLatticeBoxType[current_dimension].upper_bound() ) );
+        theTmpBoxType[current_dimension].set_bounds(cast_exact(lower),cast_exact(upper));
+    }
+
+    return theTmpBoxType;
+}
+
+BinaryWord GridAbstractCell::primary_cell_path( const DimensionType dimensions, const Nat topPCellExtent, const Nat bottomPCellExtent) {
+    BinaryWord theBinaryPath;
+
+    //The path from one primary cell to another consists of alternating subsequences
+    //of length \a dimensions. These subsequences consist either of ones or zeroes.
+    //Odd primary cell extent means that the first subsequence will consist of all
+    //ones. Even primary cell extent indicates the the first subsequence will consis
+    //of all zeroes. This is due to the way we do the space subdivisions.
+    if( topPCellExtent > bottomPCellExtent ){
+
+        for( Nat i = topPCellExtent; i > bottomPCellExtent; i-- ){
+            Bool odd_extent = (i % 2) != 0;
+            for( Nat j = 0; j < dimensions; j++ ){
+                theBinaryPath.push_back( odd_extent );
+            }
+        }
+    }
+
+    return theBinaryPath;
+}
+
+//TODO: Perhaps we can make it more efficient by reducing the extent of the words till
+//the minimal primary cell extent and then comparing them by extent and binary words
+Bool GridAbstractCell::compare_abstract_grid_cells(const GridAbstractCell * pCellLeft, const GridAbstractCell &cellRight, const Nat comparator ) {
+    ARIADNE_ASSERT( pCellLeft->_theGrid == cellRight._theGrid );
+    const BinaryWord * pThisWord, * pOtherWord;
+    //This is the temporary word to be used if extents are not equal
+    BinaryWord rootNodePath;
+
+    if( pCellLeft->_theExtent == cellRight._theExtent ) {
+        //if the primary cells are of the same extent, then we just compare the original binary words.
+        pThisWord = & (pCellLeft->_theWord);
+        pOtherWord = & (cellRight._theWord);
+    } else {
+        //Otherwise we have to re-root the cell with the lowest primary cell
+        //to the highest primary cell and then compare the words again,
+        if( pCellLeft->_theExtent > cellRight._theExtent ){
+            rootNodePath = primary_cell_path( pCellLeft->_theGrid.dimension() , pCellLeft->_theExtent, cellRight._theExtent );
+            rootNodePath.append( cellRight._theWord );
+            pThisWord = & (pCellLeft->_theWord);
+            pOtherWord = & (rootNodePath);
+        } else {
+            rootNodePath = primary_cell_path( pCellLeft->_theGrid.dimension() , cellRight._theExtent, pCellLeft->_theExtent );
+            rootNodePath.append( pCellLeft->_theWord );
+            pThisWord = & (rootNodePath);
+            pOtherWord = & (cellRight._theWord);
+        }
+    }
+    switch( comparator ){
+        case COMPARE_EQUAL : return (*pThisWord) == (*pOtherWord);
+        case COMPARE_LESS : return (*pThisWord) < (*pOtherWord);
+        default:
+            throw InvalidInput("The method's comparator argument should be either GridAbstractCell::COMPARE_EQUAL or GridAbstractCell::COMPARE_LESS.");
+    }
+}
+
+//********************************************GridCell***********************************************/
+
+GridCell GridCell::split(Bool isRight) const {
+    BinaryWord theWord = _theWord;
+    theWord.push_back( isRight );
+    return GridCell( _theGrid, _theExtent, theWord);
+}
+
+Pair<GridCell,GridCell> GridCell::split() const {
+    BinaryWord theLeftWord = _theWord;
+    theLeftWord.push_back( false );
+    BinaryWord theRightWord = _theWord;
+    theRightWord.push_back( true );
+    return std::make_pair(GridCell( _theGrid, _theExtent, theLeftWord),GridCell( _theGrid, _theExtent, theRightWord));
+}
+
+GridCell GridCell::smallest_enclosing_primary_cell( const UpperBoxType& theBoxType, const Grid& theGrid) {
+    //Create the GridCell, corresponding to the smallest primary cell, enclosing this box
+    return GridCell( theGrid, smallest_enclosing_primary_cell_extent(theBoxType, theGrid), BinaryWord() );
+}
+
+class BinaryCode {
+    Nat _height;
+    BinaryWord _word;
+  public:
+    BinaryCode(Nat tree_height, BinaryWord word) : _height(tree_height), _word(word) { } //assert(word.size()>=height); }
+    bool operator[](Int i) { return _word[static_cast<Nat>(i+static_cast<Int>(_height))]; }
+    friend OutputStream& operator<<(OutputStream& os, BinaryCode const& bc) {
+        for (SizeType i=0; i!=bc._word.size(); ++i) {
+            if (i==bc._height) { os << '.'; } os << (short)bc._word[i];
+        }
+        return os;
+    }
+    Array<BinaryCode> split(DimensionType dim) {
+        assert(_height % dim==0);
+        Array<BinaryCode> codes(dim, BinaryCode(_height/dim,BinaryWord()));
+        DimensionType k=0;
+        for (SizeType i=0; i!=_word.size(); ++i) {
+            codes[k]._word.append(this->_word[i]);
+            k=(k+1) % dim;
+        }
+        return codes;
+    }
+};
+
+//Computes the box corresponding the the cell defined by the primary cell and the binary word.
+//The resulting box is not relaterd to the original space, but is a lattice box.
+// 1. Compute the primary cell located the the extent \a theExtent above the zero level,
+// 2. Compute the cell defined by the path \a theWord (from the primary cell).
+LatticeBoxType GridCell::compute_lattice_box( const DimensionType dimensions, const Nat theExtent, const BinaryWord& theWord ) {
+    LatticeBoxType theResultLatticeBoxType( primary_cell_lattice_box( theExtent , dimensions ) );
+
+    //2. Compute the cell on some grid, corresponding to the binary path from the primary cell.
+    SizeType current_dimension = 0;
+    for(SizeType i = 0; i < theWord.size(); i++){
+        //We move through the dimensions in a linear fasshion
+        current_dimension = i % dimensions;
+        //Compute the middle point of the box's projection onto
+        //the dimension \a current_dimension (relative to the grid)
+        FloatDP middlePointInCurrDim = theResultLatticeBoxType[current_dimension].midpoint();
+        if( theWord[i] ){
+            //Choose the right half
+            theResultLatticeBoxType[current_dimension].set_lower_bound( cast_exact(middlePointInCurrDim) );
+        } else {
+            //Choose the left half
+            theResultLatticeBoxType[current_dimension].set_upper_bound( cast_exact(middlePointInCurrDim) );
+        }
+    }
+    return theResultLatticeBoxType;
+}
+
+GridCell raise_to_level(GridCell gc, Nat level) {
+    assert(gc.root_extent()<=level);
+    DimensionType n=gc.dimension();
+    BinaryWord w;
+    for (SizeType l=level; l!=gc.root_extent(); --l) {
+        for (DimensionType j=0; j!=n; ++j) {
+            w.append(l%2);
+        }
+    }
+    w.append(gc.word());
+    return GridCell(gc.grid(),level,w);
+}
+
+
+
+//This method appends \a dimension() zeroes to the binary word defining this cell
+//and return a GridOpenCell created with the given grid, primany cell extent and
+//the newly created word for the low-left cell of the open cell
+GridOpenCell GridCell::interior() const {
+    BinaryWord theOpenCellWord = _theWord;
+    for( SizeType i = 0; i < _theGrid.dimension(); i++) {
+        theOpenCellWord.push_back(false);
+    }
+    //The open cell will be defined by the given new word, i.e. the path to the
+    //left-bottom sub-quadrant cell but the box and the rest will be the same
+    return GridOpenCell( _theGrid, _theExtent, theOpenCellWord, _theBoxType );
+}
+
+//NOTE: The cell defined byt the method's arguments is called the base cell.
+//NOTE: Here we work with the lattice boxes that are in the grid
+GridCell GridCell::neighboringCell( const Grid& theGrid, const Nat theExtent, const BinaryWord& theWord, const DimensionType dim ) {
+    const DimensionType dimensions = theGrid.dimension();
+    //1. Extend the base cell in the given dimension (dim) by it's half width. This way
+    //   we are sure that we get a box that overlaps with the required neighboring cell.
+    //NOTE: This box is in the original space, but not on the lattice
+    Box<ExactIntervalType> baseCellBoxInLattice =  GridCell::compute_lattice_box( dimensions, theExtent, theWord );
+    const FloatDP upperBorderOverlapping = add(approx, baseCellBoxInLattice[dim].upper_bound(), hlf( baseCellBoxInLattice[dim].width().value_raw() ) );
+
+    //2. Now check if the neighboring cell can be rooted to the given primary cell. For that
+    //   we simply use the box computed in 1. and get the primary cell that encloses it.
+    //NOTE: In fact, we only need to take about the upper border, because the lower border does not change.
+    Int leftBottomCorner = 0, rightTopCorner = 1; Nat extent = 0;
+    do{
+        if( upperBorderOverlapping <= rightTopCorner ) {
+            //As soon as we fall into the primary cell we are done
+            break;
+        }
+        //Otherwise increase the extent and recompute the new borders
+        primary_cell_at_extent( ++extent, leftBottomCorner, rightTopCorner);
+    } while(true);
+
+    //3. If it can not then we take the lowest required primary cell to root this cell to and
+    //   to re-route the given base cell of GridOpenCell to that one.
+    Nat theBaseCellExtent = theExtent;
+    BinaryWord theBaseCellWord = theWord;
+    if( extent > theBaseCellExtent ) {
+        //If we need a higher primary cell then extend the extent and the word for the case cell
+        theBaseCellWord = primary_cell_path( dimensions, extent, theBaseCellExtent );
+        theBaseCellWord.append( theWord );
+        theBaseCellExtent = extent;
+    }
+
+    //4. We need to start from the end of the new (extended) word representing the base cell. Then
+    //   we go backwards and look for the smallest cell such that the upper border computed in 1.
+    //   is less than the cell's box upper border (in the given dimension). This is indicated by incountering
+    //   the first zero in the path to the base cell in dimension dim from the end of the path
+    SizeType position = theBaseCellWord.size() - 1;
+    while(true) {
+        //Only consider the dimension that we need and look for the first opotrunity to invert the path suffix.
+        if( ( position % dimensions == dim ) && !theBaseCellWord[position] ) {
+            break;
+        }
+        if (position == 0)
+            break;
+        position--;
+    }
+
+    //5. When this entry in the word is found from that point on we have to inverse the path in such
+    //   a way that every component in the dimension from this point till the end of the word is
+    //   inverted. This will provide us with the path to the neighborind cell in the given dimension
+    for(SizeType index = position; index < theBaseCellWord.size(); index++){
+        if( index % dimensions == dim ) {
+            //If this element of the path corresponds to the needed dimension then we need to invert it
+            theBaseCellWord[index] = !theBaseCellWord[index];
+        }
+    }
+
+    return GridCell( theGrid, theBaseCellExtent, theBaseCellWord );
+}
+
+DimensionType GridCell::dimension() const {
+    return this->grid().dimension();
+}
+
+//************************************FRIENDS OF GridCell*****************************************/
+
+Bool subset(const GridCell& theCellOne, const GridCell& theCellTwo, BinaryWord * pPathPrefixOne, BinaryWord * pPathPrefixTwo, Nat *pPrimaryCellExtent ) {
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theCellOne.grid() == theCellTwo.grid() );
+
+    //Test that the binary words are empty, otherwise the results of computations are undefined
+    Bool isDefault = false;
+    if( ( pPathPrefixOne == nullptr ) && ( pPathPrefixTwo == nullptr ) ) {
+        //If both parameters are null, then the user does not
+        //need this data, so we allocate tepmorary objects
+        pPathPrefixOne = new BinaryWord();
+        pPathPrefixTwo = new BinaryWord();
+        isDefault = true;
+    } else {
+        if( ( pPathPrefixOne == nullptr ) || ( pPathPrefixTwo == nullptr ) ) {
+            //TODO: Find some better way to notify the user that
+            //only one of the required pointers is not nullptr.
+            ARIADNE_ASSERT( false );
+        } else {
+            //DO NOTHING: Both parameters are not nullptr, so it
+            //is user data and isDefault should stay false.
+        }
+    }
+
+    //Check if theCellOne is a subset of theCellTwo:
+
+    //01 Align the cell's primary cells by finding path prefixes
+    Nat primary_cell_extent;
+    if( theCellOne.root_extent() < theCellTwo.root_extent() ) {
+        primary_cell_extent = theCellTwo.root_extent();
+        pPathPrefixOne->append( GridCell::primary_cell_path( theCellOne.grid().dimension(), theCellTwo.root_extent(), theCellOne.root_extent() ) );
+    } else {
+        primary_cell_extent = theCellOne.root_extent();
+        if( theCellOne.root_extent() > theCellTwo.root_extent() ){
+            pPathPrefixTwo->append( GridCell::primary_cell_path( theCellOne.grid().dimension(), theCellOne.root_extent(), theCellTwo.root_extent() ) );
+        } else {
+            //DO NOTHING: The cells are rooted to the same primary cell
+        }
+    }
+    if( pPrimaryCellExtent != nullptr ){
+        *pPrimaryCellExtent = primary_cell_extent;
+    }
+
+    //02 Add the rest of the paths to the path prefixes to get the complete paths
+    pPathPrefixOne->append( theCellOne.word() );
+    pPathPrefixTwo->append( theCellTwo.word() );
+
+    //03 theCellOne is a subset of theCellTwo if pathPrefixTwo is a prefix of pathPrefixOne
+    Bool result = pPathPrefixTwo->is_prefix( *pPathPrefixOne );
+
+    //04 If working with default parameters, then release memory
+    if( isDefault ) {
+        delete pPathPrefixOne;
+        delete pPathPrefixTwo;
+    }
+
+    return result;
+}
+
+OutputStream& operator<<(OutputStream& os, const GridCell& gridPavingCell){
+    //Write the grid data to the string stream
+    return os << "GridCell( " << gridPavingCell.grid() <<
+        ", Primary cell extent: " << gridPavingCell.root_extent() <<
+        ", Path from the root: " << gridPavingCell.word() <<
+        ", ExactBoxType: " << gridPavingCell.box() << " )";
+}
+
+
+//********************************************GridOpenCell******************************************/
+
+//NOTE: In this method first works with the boxes on the lattice, to make
+//      computation exact, and then maps them to the original space.
+ExactBoxType GridOpenCell::compute_box(const Grid& theGrid, const Nat theExtent, const BinaryWord& theWord) {
+    Box<ExactIntervalType> baseCellBoxInLattice =  GridCell::compute_lattice_box( theGrid.dimension(), theExtent, theWord );
+    ExactBoxType openCellBoxInLattice( theGrid.dimension() );
+
+    //Go through all the dimensions, and double the box size in the positive axis direction.
+    for( DimensionType dim = 0; dim < theGrid.dimension(); dim++){
+        ExactIntervalType openCellBoxInLatticeDimIntervalType;
+        ExactIntervalType baseCellBoxInLatticeDimIntervalType = baseCellBoxInLattice[dim];
+        FloatDP lower = baseCellBoxInLatticeDimIntervalType.lower_bound();
+        FloatDP upper = add( near, baseCellBoxInLatticeDimIntervalType.upper_bound(),
+                             sub( near, baseCellBoxInLatticeDimIntervalType.upper_bound(),
+                                        baseCellBoxInLatticeDimIntervalType.lower_bound() ) );
+        openCellBoxInLatticeDimIntervalType.set_bounds(cast_exact(lower),cast_exact(upper));
+
+        openCellBoxInLattice[dim] = openCellBoxInLatticeDimIntervalType;
+    }
+
+    return lattice_box_to_space( openCellBoxInLattice, theGrid );
+}
+
+GridOpenCell GridOpenCell::split(TernaryChild child) const {
+    BinaryWord theNewBaseCellPath = _theWord;
+    Nat theNewPrimaryCellExtent;
+    if( child == TernaryChild::MIDDLE ) {
+        //Return the middle open cell (child == TernaryChild::MIDDLE)
+        theNewBaseCellPath.push_back( true );
+        theNewPrimaryCellExtent = _theExtent;
+    } else {
+        if( child == TernaryChild::RIGHT ) {
+            //Return the right-most open cell (child == TernaryChild::RIGHT)
+            //1. First determine in which dimention we are going to split
+            //NOTE: We use theNewBaseCellPath.size() but not theNewBaseCellPath.size()-1 because
+            //we want to determine the dimension in which will be the next split, but not the
+            //dimension in which we had the last split.
+            const DimensionType dim = theNewBaseCellPath.size() % _theGrid.dimension();
+            //2. Then get the neighboring cell in this dimension
+            GridCell neighboringCell = GridCell::neighboringCell( _theGrid, _theExtent, theNewBaseCellPath, dim );
+            //3. Get the neighboring's cell extent and word, because extent might change
+            theNewBaseCellPath = neighboringCell.word();
+            theNewPrimaryCellExtent = neighboringCell.root_extent();
+            //4. Take the left half of the new base cell
+            theNewBaseCellPath.push_back( false );
+        } else {
+            //Return the left-most open cell (child == TernaryChild::LEFT)
+            theNewBaseCellPath.push_back( false );
+            theNewPrimaryCellExtent = _theExtent;
+        }
+    }
+
+    //Construct the new open cell and return it
+    return GridOpenCell( _theGrid, theNewPrimaryCellExtent, theNewBaseCellPath );
+}
+
+GridOpenCell * GridOpenCell::smallest_open_subcell( const GridOpenCell &theOpenCell, const ExactBoxType & theBoxType ) {
+    GridOpenCell * pSmallestOpenCell = nullptr;
+    //If the box of the givel open cell covers the given box
+    if( definitely( theOpenCell.box().covers( theBoxType ) ) ) {
+        //First check the left sub cell
+        pSmallestOpenCell = smallest_open_subcell( theOpenCell.split( TernaryChild::LEFT ), theBoxType );
+        if( pSmallestOpenCell == nullptr ) {
+            //If the left sub cell does not cover theBoxType then check the middle sub cell
+            pSmallestOpenCell = smallest_open_subcell( theOpenCell.split( TernaryChild::MIDDLE ), theBoxType );
+            if( pSmallestOpenCell == nullptr ) {
+                //If the middle sub cell does not cover the box then check the right subcell
+                pSmallestOpenCell = smallest_open_subcell( theOpenCell.split( TernaryChild::RIGHT ), theBoxType );
+                if( pSmallestOpenCell == nullptr ) {
+                    //If the right sub cell does not cover the box then the open cell
+                    //theOpenCell is the smallest GridOpenCell covering theBoxType.
+                    pSmallestOpenCell = new GridOpenCell( theOpenCell.grid(), theOpenCell.root_extent(),
+                                                          theOpenCell.word(), theOpenCell.box() );
+                }
+            }
+        }
+    }
+
+    //Return the result, is null If the box of theOpenCell does not cover the given box
+    return pSmallestOpenCell;
+}
+
+GridOpenCell GridOpenCell::outer_approximation( const ExactBoxType & theBoxType, const Grid& theGrid ) {
+    //01. First we find the smallest primary GridCell that contain the given ExactBoxType.
+    GridCell thePrimaryCell = GridCell::smallest_enclosing_primary_cell( theBoxType, theGrid );
+
+    //02. Second we start subdividing it to find out the root cell for the smallest open cell containing theBoxType
+    //NOTE: smallest_open_subcell returns nullptr or a pointer to new open cell, but here we are sure that
+    //we can not get nullptr because of the choice of thePrimaryCell, therefore we do the following:
+    GridOpenCell * pOpenCell = GridOpenCell::smallest_open_subcell( thePrimaryCell.interior(), theBoxType );
+    GridOpenCell theOpenCell = (* pOpenCell); delete pOpenCell; //Deallocate the memory, to avoid the memory leaks
+    return theOpenCell;
+}
+
+GridTreePaving GridOpenCell::closure() const {
+    //01. First we compute the extent of the primary cell that encloses the given open cell
+    const Nat newExtent = smallest_enclosing_primary_cell_extent( _theBoxType, _theGrid );
+
+    //02. Re-route (if needed) the base cell to the new primary cell
+    Nat theBaseCellExtent = _theExtent;
+    BinaryWord theBaseCellWord = _theWord;
+    //If we need a higher primary cell then extend the extent and the word for the base cell
+    if( newExtent > theBaseCellExtent ) {
+        theBaseCellWord = primary_cell_path( _theGrid.dimension(), newExtent, theBaseCellExtent );
+        theBaseCellWord.append( _theWord );
+        theBaseCellExtent = newExtent;
+    }
+
+    //03. Allocate the resulting GridTreeSet with the root at the needed extent
+    GridTreePaving theResultSet( _theGrid, theBaseCellExtent, new BinaryTreeNode( false ) );
+
+    //04. The preparations are done, now we need to add the base cell to the
+    //    resulting GridTreeSet and to compute and add the other neighboring cells.
+    BinaryWord tmpWord;
+    neighboring_cells( theResultSet.root_cell().root_extent(), theBaseCellWord, tmpWord, theResultSet );
+
+    return theResultSet;
+}
+
+Void GridOpenCell::neighboring_cells( const Nat theExtent, const BinaryWord& theBaseCellWord,
+                                      BinaryWord& cellPosition, GridTreePaving& theResultSet ) const {
+    if( cellPosition.size() < _theGrid.dimension() ) {
+        //Choose the left direction in the current dimension
+        cellPosition.push_back( false );
+        GridOpenCell::neighboring_cells( theExtent, theBaseCellWord, cellPosition, theResultSet );
+        cellPosition.pop_back( );
+        //Choose the right direction in the current dimension
+        cellPosition.push_back( true );
+        GridOpenCell::neighboring_cells( theExtent, theBaseCellWord, cellPosition, theResultSet );
+        cellPosition.pop_back( );
+    } else {
+        //We have constructed the cell position relative to the base cell
+        //for the case of _theGrid.dimension() dimensional space, now it
+        //is time to compute this cell and add it to theResultSet
+        theResultSet.adjoin( GridOpenCell::neighboring_cell( _theGrid, theExtent, theBaseCellWord, cellPosition ) );
+    }
+}
+
+GridCell GridOpenCell::neighboring_cell( const Grid& theGrid, const Nat theExtent,
+                                         const BinaryWord& theBaseCellWord, BinaryWord& cellPosition ) {
+    const SizeType num_dimensions = theGrid.dimension();
+    //01. Allocate the Array of size _theGrid.dimensions() in which we will store
+    //    the position in the path theBaseCellWord, for each dimension, from which on
+    //    we need to inverse the path to get the proper neighboring cell.
+    Vector<SizeType> invert_position(num_dimensions);
+    const SizeType NO_INVERSE_POSITION = static_cast<SizeType>(theBaseCellWord.size());
+    //Initialize the Array with NO_INVERSE_POSITION to make sure that the inversion positions
+    //for the dimensions that are not set to one in cellPosition will be undefined. Also,
+    //count the required number of iverse dimensions
+    SizeType inverseDimensionsNumericType = 0;
+    for( SizeType i = 0; i < num_dimensions; i++ ) {
+        invert_position[i] = NO_INVERSE_POSITION;
+        inverseDimensionsNumericType = inverseDimensionsNumericType + cellPosition[i];
+    }
+
+    //02. Create the path to the neighboring cell and initialize it with the path to the base cell
+    BinaryWord theNeighborCellWord = theBaseCellWord;
+
+    //03. We need to start from the end of the new (extended) word representing the base cell. Then
+    //    we go backwards and, for each dimension in which we need to move from the base cell, look
+    //    for the first zero in the path. This position, for each dimension, will indicate the path
+    //    suffix which has to be inverted to get the neighboring cell defined by cellPosition
+    SizeType firstInversePosition = NO_INVERSE_POSITION;
+    if( inverseDimensionsNumericType > 0 ) {
+        //If there is a need to do inverses, i.e. we are not adding the base cell itself
+        SizeType foundNumericTypeOfInverses = 0;
+        SizeType position = theNeighborCellWord.size() - 1u;
+        while(true) {
+            //Only consider the dimension that we need and look for the first opotrunity to invert the path suffix.
+            SizeType dimension = position % num_dimensions;
+            //If we need to inverse in this dimension and this is the first found position in
+            //this dimension from which on we should inverse then save the position index.
+            if( cellPosition[ dimension ] && !theNeighborCellWord[ position ] &&
+                ( invert_position[ dimension ] == NO_INVERSE_POSITION ) ) {
+                invert_position[ dimension ] = position;
+                //Since it will typically be the case the the binary word to the base cell will be
+                //longer than the number of dimensions, we also find the first inverse positions.
+                if( position < firstInversePosition ) {
+                    firstInversePosition = position;
+                }
+                //Incremenet the number of fount inverses and check if this is all we need, if yes then break
+                foundNumericTypeOfInverses++;
+                if( foundNumericTypeOfInverses == inverseDimensionsNumericType ) {
+                    break;
+                }
+            }
+            if (position == 0) break;
+            position--;
+        }
+    }
+
+    //04. Since now all the inversion positions are found, we need to go through the path again and
+    //    inverse it in the needed dimesnions starting from (corresponding) the found positions on.
+    //    This will provide us with the path to the neighborind cell in the given dimension
+    for( SizeType index = firstInversePosition; index < theNeighborCellWord.size(); index++ ) {
+        SizeType dimension = index % num_dimensions;
+        if( cellPosition[ dimension ] && ( index >= invert_position[ dimension ] ) ) {
+            theNeighborCellWord[index] = !theNeighborCellWord[index];
+        }
+    }
+
+    return GridCell( theGrid, theExtent, theNeighborCellWord );
+}
+
+Void GridOpenCell::cover_cell_and_borders( const GridCell& theCell, const GridTreePaving& theSet,
+                                  BinaryWord& cellPosition, std::vector<GridOpenCell>& result ) {
+    const SizeType num_dimensions = theCell.grid().dimension();
+    if( cellPosition.size() < num_dimensions ) {
+        //Choose the left direction in the current dimension
+        cellPosition.push_back( false );
+        cover_cell_and_borders( theCell, theSet, cellPosition, result );
+        cellPosition.pop_back( );
+        //Choose the right direction in the current dimension
+        cellPosition.push_back( true );
+        cover_cell_and_borders( theCell, theSet, cellPosition, result );
+        cellPosition.pop_back( );
+    } else {
+        //We have constructed the cell position relative to the base cell
+        //for the case of _theGrid.dimension() dimensional space, now it
+        //is time to compute this cell and add it to result
+        GridCell neighborCell = GridOpenCell::neighboring_cell( theCell.grid(), theCell.root_extent(), theCell.word(), cellPosition );
+        //Check if the found neighboring cell is in theSet
+        if( theSet.binary_tree()->is_enabled( neighborCell.word() ) ) {
+            //So this cell is the enabled neighbor of theCell therefore we need to cover the boundary
+            BinaryWord coverCellBaseWord = theCell.word();
+            //Take the given word theCell.word() and then add the directions from the cellPosition
+            //The latter start from the first axis till the last one, but the path in coverCellBaseWord
+            //currently ends at some other axis so we need to align them when appending cellPosition
+            for( SizeType i = 0; i < num_dimensions ; i++ ) {
+                coverCellBaseWord.push_back( cellPosition[ coverCellBaseWord.size() % num_dimensions ] );
+            }
+            //Add the resulting cover cell
+            result.push_back( GridOpenCell( theCell.grid(), theCell.root_extent(), coverCellBaseWord ) );
+        }
+    }
+}
+
+List<GridOpenCell> GridOpenCell::intersection( const GridOpenCell & theLeftOpenCell, const GridOpenCell & theRightOpenCell ) {
+    List<GridOpenCell> result;
+
+    //01 First check if one open cell is a subset of another open cell or if they overlap
+    if( definitely( theLeftOpenCell.box().covers( theRightOpenCell.box() ) ) ) {
+            //If theRightOpenCell is a subset of theLeftOpenCell
+        result.push_back( theRightOpenCell );
+    } else {
+        if( definitely( theRightOpenCell.box().covers( theLeftOpenCell.box() ) ) ) {
+            //If theLeftOpenCell is a subset of theRightOpenCell
+            result.push_back( theLeftOpenCell );
+        } else {
+            if( definitely( theRightOpenCell.box().overlaps( theLeftOpenCell.box() ) ) ) {
+                //02 If the open cells overlap then let us get the cells contained by the two open cells
+                GridTreePaving theLeftCellSet = theLeftOpenCell.closure();
+                GridTreePaving theRightCellSet = theRightOpenCell.closure();
+
+                //03 Then we compute their intersection
+                GridTreePaving intersectionSet = Ariadne::intersection( theLeftCellSet, theRightCellSet );
+                //NOTE: It seems to me there is no need to recombine the resulting set, it will not reduce anything
+
+                //04 Iterate through all the cells in the intersection and first add their interiors to the resulting set, second
+                //check if the two cells have common border and/or vertex and if they do then add extra open cells, lying withing
+                //the intersection and covering the common border and/or vertex.
+                for ( GridTreeSubpaving::ConstIterator it = intersectionSet.begin(), end = intersectionSet.end(); it != end; it++) {
+                    //Cover the interior of the cell and the borders with the cells bordered with
+                    //the given one in each  positive direction in each dimension. The borders
+                    //are covered only if the neighboring cell is also in the intersection set.
+                    BinaryWord tmpWord;
+                    cover_cell_and_borders( (*it), intersectionSet, tmpWord, result );
+                }
+            }
+        }
+    }
+
+    return result;
+}
+
+//***************************************FRIENDS OF GridOpenCell*******************************************/
+
+OutputStream& operator<<(OutputStream& os, const GridOpenCell& theGridOpenCell ) {
+    //Write the grid data to the string stream
+    return os << "GridOpenCell( " << theGridOpenCell.grid() <<
+        ", Primary cell extent: " << theGridOpenCell.root_extent() <<
+        ", Base cell path: " << theGridOpenCell.word() <<
+        ", ExactBoxType (closure): " << theGridOpenCell.box() << " )";
+}
+
+
+
+//*******************************************GridTreeCursor***************************************/
+
+GridTreeCursor::GridTreeCursor( ) :
+    _currentStackIndex(-1), _pSubPaving(0), _theCurrentGridCell( Grid(), 0, BinaryWord() ) {
+}
+
+GridTreeCursor::GridTreeCursor(const GridTreeCursor & otherCursor) :
+    _currentStackIndex(otherCursor._currentStackIndex), _theStack(otherCursor._theStack),
+    _pSubPaving(otherCursor._pSubPaving), _theCurrentGridCell(otherCursor._theCurrentGridCell){
+}
+
+GridTreeCursor& GridTreeCursor::operator=(const GridTreeCursor & otherCursor) {
+    _currentStackIndex = otherCursor._currentStackIndex;
+    _theStack = otherCursor._theStack;
+    _pSubPaving = otherCursor._pSubPaving;
+    _theCurrentGridCell = otherCursor._theCurrentGridCell;
+
+    return *this;
+}
+
+GridTreeCursor::GridTreeCursor(const GridTreeSubpaving * pSubPaving) :
+    _currentStackIndex(-1), _pSubPaving(pSubPaving), _theCurrentGridCell( pSubPaving->root_cell() ) {
+    //Remember that GridTreeSubset contains GridCell
+
+    //Add the current node to the stack, since we are in it
+
+    //IVAN S ZAPREEV:
+    //NOTE: There is no need in allocating _theStack elements,
+    //it is all done in the push method
+    push(pSubPaving->_pRootTreeNode);
+}
+
+GridTreeCursor::~GridTreeCursor() {
+    //IVAN S ZAPREEV:
+    //WARNING: The subpaving should not be deallocated here!
+    //There are no other data feels that we need to deallocate
+    _pSubPaving = nullptr;
+}
+
+inline Void GridTreeCursor::push( BinaryTreeNode* pLatestNode ){
+    //If we are out of free space, increase the Array's capacity
+    if( static_cast<SizeType>(_currentStackIndex +1) == ( _theStack.size()  ) ){
+        _theStack.resize( _theStack.size() + STACK_SIZE_INCREMENT );
+    }
+
+    //The index for the tree node to be added
+    _currentStackIndex += 1;
+
+    //Put the tree node pointer into the stack
+    _theStack[static_cast<SizeType>(_currentStackIndex)] = pLatestNode;
+
+}
+
+inline BinaryTreeNode* GridTreeCursor::pop( ){
+    BinaryTreeNode* pLastNode = nullptr;
+
+    //If there are non-root nodes in the stack
+    if( _currentStackIndex > 0 ){
+        //Return the stack element at _currentStackIndex,
+        //then decrement the current element's index (here inverted in order)
+        _currentStackIndex--;
+        return _theStack[ static_cast<SizeType>(_currentStackIndex+1) ];
+    }
+
+    return pLastNode;
+}
+
+Bool GridTreeCursor::is_at_the_root() const {
+    //If we are pointing at the zero cell of the Array then it
+    //means that we are in the root of the tree
+    return (_currentStackIndex == 0);
+}
+
+Bool GridTreeCursor::is_enabled() const {
+    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->is_enabled();
+}
+
+Bool GridTreeCursor::is_disabled() const {
+    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->is_disabled();
+}
+
+Bool GridTreeCursor::is_leaf() const {
+    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->is_leaf();
+}
+
+Bool GridTreeCursor::is_root() const {
+    return  is_at_the_root();
+}
+
+Void GridTreeCursor::set_enabled() const {
+    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->set_enabled();
+}
+
+Void GridTreeCursor::set_disabled() const {
+    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->set_disabled();
+}
+
+Bool GridTreeCursor::is_left_child() const{
+    //If there is a parent node and the given node is it's left child
+    return ( _currentStackIndex > 0 ) && ( _theStack[ static_cast<SizeType>(_currentStackIndex - 1) ]->left_node() == _theStack[ static_cast<SizeType>(_currentStackIndex) ] );
+}
+
+Bool GridTreeCursor::is_right_child() const{
+    //If there is a parent node and the given node is it's right child
+    return ( _currentStackIndex > 0 ) && ( _theStack[ static_cast<SizeType>(_currentStackIndex - 1) ]->right_node() == _theStack[ static_cast<SizeType>(_currentStackIndex) ] );
+}
+
+GridTreeCursor& GridTreeCursor::move_up() {
+    return move(BinaryTreeDirection::UP);
+}
+
+GridTreeCursor& GridTreeCursor::move_left() {
+    return move(BinaryTreeDirection::LEFT);
+}
+
+GridTreeCursor& GridTreeCursor::move_right() {
+    return move(BinaryTreeDirection::RIGHT);
+}
+
+inline Void GridTreeCursor::updateTheCurrentGridCell( BinaryTreeDirection up_or_left_or_right ) {
+    if( up_or_left_or_right == BinaryTreeDirection::UP ){
+        //We go "up" in the tree, so we remove the last bit of the path.
+        _theCurrentGridCell._theWord.pop_back();
+    } else {
+        //Here up_or_left_or_right is either LEFT or RIGHT, so true defines moving to the right branch
+        _theCurrentGridCell._theWord.push_back( up_or_left_or_right==BinaryTreeDirection::RIGHT );
+    }
+    _theCurrentGridCell = GridCell( _theCurrentGridCell._theGrid, _theCurrentGridCell._theExtent, _theCurrentGridCell._theWord );
+}
+
+inline GridTreeCursor& GridTreeCursor::move(BinaryTreeDirection up_or_left_or_right) {
+    if( up_or_left_or_right == BinaryTreeDirection::UP ) {
+        if( is_root() ) {
+            throw NotAllowedMoveException(ARIADNE_PRETTY_FUNCTION);
+        }
+        //Remove the current node from the stack
+        pop();
+    }
+    else {
+        if( is_leaf() ){
+            throw NotAllowedMoveException(ARIADNE_PRETTY_FUNCTION);
+        }
+        //If we are not in the leaf node then we can go down
+        BinaryTreeNode* pNextNode;
+        if( up_or_left_or_right == BinaryTreeDirection::RIGHT ) { //move to the right
+            pNextNode = _theStack[ static_cast<SizeType>(_currentStackIndex) ]->right_node();
+        } else { // move to the left
+            pNextNode = _theStack[ static_cast<SizeType>(_currentStackIndex) ]->left_node();
+        }
+        //Put the node into the stack
+        push(pNextNode);
+    }
+
+    //Recompute the PavingGridCell
+    updateTheCurrentGridCell( up_or_left_or_right );
+    //Return the object back
+    return ( * this);
+}
+
+Bool GridTreeCursor::operator==(const GridTreeCursor& anotherGridTreeCursor) const {
+    Bool areEqual = false;
+    if( (this->_currentStackIndex >=0) && (anotherGridTreeCursor._currentStackIndex >=0 ) ){
+        areEqual = (this->_theStack[static_cast<SizeType>(this->_currentStackIndex)] == anotherGridTreeCursor._theStack[static_cast<SizeType>(anotherGridTreeCursor._currentStackIndex)]);
+    }
+    return areEqual;
+}
+
+GridTreeSubpaving GridTreeCursor::operator*() {
+    //IVAN S ZAPREEV:
+    //NOTE: The first three parameters define the location of the _theStack[ _currentStackIndex ]
+    //node with respect to the primary cell of the GridTreeSet.
+    return GridTreeSubpaving( _theCurrentGridCell._theGrid,
+                           _theCurrentGridCell._theExtent,
+                           _theCurrentGridCell._theWord,
+                           _theStack[ static_cast<SizeType>(_currentStackIndex) ] );
+}
+
+const GridTreeSubpaving GridTreeCursor::operator*() const {
+    return const_cast<GridTreeCursor&>(*this).operator*();
+}
+
+//************************************FRIENDS OF GridTreeCursor*****************************************/
+
+OutputStream& operator<<(OutputStream& os, const GridTreeCursor& theGridTreeCursor) {
+    const Int curr_stack_idx = theGridTreeCursor._currentStackIndex;
+    os << "GridTreeCursor( " << theGridTreeCursor._pSubPaving <<
+        ", Curr. stack index: " << curr_stack_idx  <<
+        ", Stack data: [ ";
+    for(SizeType i = 0; i <= static_cast<SizeType>(curr_stack_idx); i++){
+        os << theGridTreeCursor._theStack[i]->node_to_string() << ( ( i < static_cast<SizeType>(curr_stack_idx) ) ? "" : ", ");
+    }
+    return os<<" ], " << theGridTreeCursor._theCurrentGridCell << " )";
+}
+
+//***************************************GridTreeConstIterator************************************/
+
+GridTreeConstIterator::GridTreeConstIterator(  ) : _pGridTreeCursor()  {
+}
+
+GridTreeConstIterator::GridTreeConstIterator( const GridTreeSubpaving * pSubPaving, const ValidatedKleenean firstLastNone )
+    :  _pGridTreeCursor(pSubPaving)
+{
+    if( is_determinate( firstLastNone ) ) {
+        //If the first/last enabled node is not found, it means that there are no elements
+        //to iterate on, then we switch to the "end Iterator" state
+        _is_in_end_state = ! navigate_to( definitely( firstLastNone ) );
+    } else {
+        //In this case if we do nothing, the cursor in the Iterator will point to the root node
+        //Since this can be the only node in the tre we should add a marker that indicates that
+        //the Iterator is at the end state.
+        _is_in_end_state = true;
+    }
+}
+
+Void GridTreeConstIterator::find_next_enabled_leaf() {
+    if( _pGridTreeCursor.is_left_child() ) {
+        //Move to the parent node
+        _pGridTreeCursor.move_up();
+        //The right node must exist, due to the way we allocate the tree
+        //Also, this node is the root of the branch which we did not investigate.
+        _pGridTreeCursor.move_right();
+        //Find the first enabled leaf on this sub-tree
+        if( ! navigate_to(true) ){
+            //If there are no enabled leafs in the subtree, then
+            //move up and check the remaining branches recursively.
+            find_next_enabled_leaf();
+        }
+    } else {
+        if( _pGridTreeCursor.is_right_child() ) {
+            //Move to the parent node
+            _pGridTreeCursor.move_up();
+            //Move up and check the remaining branches recursively.
+            find_next_enabled_leaf();
+        } else {
+            //Is the root node already and we've seen all the leaf nodes
+            _is_in_end_state = true;
+        }
+    }
+}
+
+Bool GridTreeConstIterator::navigate_to(Bool firstLast){
+    Bool isEnabledLeafFound = false;
+    if( _pGridTreeCursor.is_leaf() ){
+        if ( _pGridTreeCursor.is_enabled() ) {
+            //If the leaf is enabled, then the search is over
+            isEnabledLeafFound = true;
+        }
+    } else {
+        //If it is not a leaf then we need to keep searching
+        if( firstLast ) {
+            //If we are looking for the first enabled
+            //node, then go to the left sub node
+            _pGridTreeCursor.move_left();
+        } else {
+            //Otherwise we go to the right
+            _pGridTreeCursor.move_right();
+        }
+        //Do recursive check of the newly visited node
+        isEnabledLeafFound = navigate_to( firstLast );
+        //If the leaf node is not found yet
+        if ( ! isEnabledLeafFound ) {
+            if( firstLast ) {
+                _pGridTreeCursor.move_right();
+            } else {
+                _pGridTreeCursor.move_left();
+            }
+            isEnabledLeafFound = navigate_to( firstLast );
+        }
+    }
+
+    //If the enabled leaf is not found and we are not in the root then we go back
+    if( ! isEnabledLeafFound && ! _pGridTreeCursor.is_root() ){
+        _pGridTreeCursor.move_up();
+    }
+
+    return isEnabledLeafFound;
+}
+
+Void GridTreeConstIterator::increment() {
+    //If we are not done iterating
+    if( ! _is_in_end_state){
+        //We are at some enabled-leaf node and we want to find the next one.
+        //The next node is somewhere on the right in the tree.
+        find_next_enabled_leaf();
+    }
+}
+
+Bool GridTreeConstIterator::equal( GridTreeConstIterator const & theOtherIterator) const {
+    //Check if both iterators are in the "end Iterator" state
+    Bool result = theOtherIterator._is_in_end_state && this->_is_in_end_state;
+
+    //If not then check if the cursors are equal (i.e. if they point to the same binary-tree node of the same (subpaving)
+    if( ! result ){
+        if( theOtherIterator._is_in_end_state || this->_is_in_end_state ){
+            //If at one is in the end state and the other is not then the answer is FALSE
+            result = false;
+        } else {
+            result = theOtherIterator._pGridTreeCursor == this->_pGridTreeCursor;
+        }
+    }
+
+    return result;
+}
+
+GridTreeConstIterator* GridTreeConstIterator::clone() const {
+    return new GridTreeConstIterator(*this);
+}
+
+Bool GridTreeConstIterator::equals( ForwardConstantIteratorInterface<GridCell> const & theOtherIterator) const {
+    GridTreeConstIterator const* theOtherIteratorPointer = dynamic_cast<GridTreeConstIterator const*>(&theOtherIterator);
+    return theOtherIteratorPointer && (this->equal(*theOtherIteratorPointer));
+}
+
+OutputStream& GridTreeConstIterator::_write(OutputStream& os) const {
+    return os << "GridTreeConstIterator(" << this->cursor() << ")";
+}
+
+
+//*******************************************GridTreeSubset******************************************/
+
+SizeType GridTreeSubpaving::size() const {
+    return BinaryTreeNode::count_enabled_leaf_nodes( this->binary_tree() );
+}
+
+Void GridTreeSubpaving::set_root_cell(Bool enabled_or_disabled)  {
+    this->_pRootTreeNode->set(enabled_or_disabled);
+}
+
+Void GridTreeSubpaving::mince_to_tree_depth( const Nat theNewTreeDepth ) {
+    _pRootTreeNode->mince( theNewTreeDepth );
+}
+
+Void GridTreeSubpaving::recombine() {
+    _pRootTreeNode->recombine();
+}
+
+Nat GridTreeSubpaving::tree_depth() const {
+    return _pRootTreeNode->depth();
+}
+
+Bool GridTreeSubpaving::operator==(const GridTreeSubpaving& anotherGridTreeSubset) const {
+    return ( this->_theGridCell == anotherGridTreeSubset._theGridCell ) &&
+        ( ( * this->_pRootTreeNode ) == ( * anotherGridTreeSubset._pRootTreeNode ) );
+}
+
+GridTreeSubpaving::GridTreeSubpaving( const Grid& theGrid, const Nat theExtent,
+                                       const BinaryWord& theWord, BinaryTreeNode * pRootTreeNode )
+    : _pRootTreeNode(pRootTreeNode), _theGridCell(theGrid, theExtent, theWord) {
+}
+
+GridTreeSubpaving::GridTreeSubpaving( const GridTreeSubpaving &otherSubset )
+    : _pRootTreeNode(otherSubset._pRootTreeNode),
+      _theGridCell(otherSubset._theGridCell) {
+}
+
+GridTreeSubpaving::~GridTreeSubpaving() {
+    //IVAN S ZAPREEV:
+    //WARNING: This method should have no implementation what so ever
+    //All the synamically allocatged data should be destroyed from the
+    //corresponding Paving object
+}
+
+inline Nat GridTreeSubpaving::compute_number_subdiv( FloatDP theWidth, const FloatDP theMaxWidth) const{
+    //Compute the minimum number of subdivisions N as:
+    //   minimum N : ( theWidth / 2^{N} ) <= theMaxWidth
+    //This is equivalent to (because all values are positive)
+    //   minimum N : theWidth / theMaxWidth <= 2^{N}
+    //log is a continuous-increasing dunction, thus the latter is
+    //equivalent to (since 0 < theMaxWidth, theWidth < infinite )
+    //   minimum N : log( theWidth / theMaxWidth ) <= N
+    //In computations then we need to take
+    //   N = ceil( log( theWidth / theMaxWidth ) )
+
+    //IVAN S ZAPREEV:
+    //NOTE: We take log_approx, log_approx because if we use _up and _down versions to maximize the answer,
+    //then it might become very inaccurate, and in case require more subdivisions than needed.
+    //NOTE: We need base 2 logarithm, we get it by the rule: log_a(b)/log_a(c) = log_c(a)
+    //PIETER COLLINS:
+    //NOTE: FloatDP now uses approximate operators by default
+    Nat result = 0;
+    if ( theWidth > theMaxWidth ){
+        //result = (Nat) ceil( div(approx, log(approx, div(approx, theWidth, theMaxWidth ) ) , log(approx, R(2.0) ) ) );
+        result = integer_cast<Nat>(ceil( div( near, log( near, div( near, theWidth, theMaxWidth ) ) , log( near, FloatDP(2.0_x,dp) ) ) ) );
+    }
+    return result;
+}
+
+Bool GridTreeSubpaving::is_empty() const {
+    return this->size() == 0;
+}
+
+DimensionType GridTreeSubpaving::dimension( ) const {
+    return grid().dimension();
+}
+
+
+const Grid& GridTreeSubpaving::grid() const {
+    return this->_theGridCell.grid();
+}
+
+GridCell GridTreeSubpaving::root_cell() const {
+    return _theGridCell;
+}
+
+UpperBoxType GridTreeSubpaving::bounding_box() const {
+    if(this->is_empty()) return ExactBoxType(this->dimension());
+
+    GridTreePaving::ConstIterator iter=this->begin();
+    UpperBoxType bbox = iter->box();
+
+    for( ; iter!=this->end(); ++iter) {
+        UpperBoxType cell = iter->box();
+        for(DimensionType i = 0; i < cell.dimension(); ++i) {
+            if(cell[i].lower_bound().raw() < bbox[i].lower_bound().raw()) bbox[i].set_lower_bound(cell[i].lower_bound());
+            if(cell[i].upper_bound().raw() > bbox[i].upper_bound().raw()) bbox[i].set_upper_bound(cell[i].upper_bound());
+        }
+    }
+
+    return bbox;
+
+}
+
+inline Nat GridTreeSubpaving::zero_cell_subdivisions_to_tree_subdivisions( const Nat numSubdivInDim, const Nat primaryCellExtent,
+                                                                           const Nat primaryToRootCellPathLength ) const {
+    //Here we take the extent of the primary cell that the subpaving's root cell is rooted to
+    //This extent times the number of dimensions is the number of subdivisions to make in
+    //the primary cell to reach the level of the zero cell. This plus the numSubdivInDim
+    //times the number of dimensions gives us the total number of the primary cell we have
+    //to make. But, the given paving is has the root node different from the primary cell,
+    //thus we have to subtract the length of the path from the primary cell to the root cell
+    //of this subpaving, to get the proper number of subdivisions to make in the binary tree
+    Int theTreeDepth = ( primaryCellExtent + numSubdivInDim ) * _theGridCell.grid().dimension() - primaryToRootCellPathLength;
+    //If the new depth is not positive then we already have the required number
+    //of subdivisions so then nothing has to be done, so we return zero!
+    return (theTreeDepth > 0) ? static_cast<Nat>(theTreeDepth) : 0u;
+}
+
+Void GridTreeSubpaving::mince( Nat numSubdivInDim ) {
+    mince_to_tree_depth( zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, _theGridCell.root_extent(), _theGridCell.word().size() ) );
+}
+
+Void GridTreeSubpaving::mince_to_depth( const Nat theNewDepth ) {
+    Int theNewTreeDepth = _theGridCell.root_extent() * _theGridCell.grid().dimension() + theNewDepth - _theGridCell.word().size();
+    _pRootTreeNode->mince( (theNewTreeDepth > 0) ? static_cast<Nat>(theNewTreeDepth) : 0u );
+}
+
+GridTreeSubpaving::ConstIterator GridTreeSubpaving::begin() const {
+    return GridTreeSubpaving::ConstIterator(this, true);
+}
+
+GridTreeSubpaving::ConstIterator GridTreeSubpaving::end() const {
+    return GridTreeSubpaving::ConstIterator(this, indeterminate);
+}
+
+const BinaryTreeNode * GridTreeSubpaving::binary_tree() const {
+    return _pRootTreeNode;
+}
+
+GridTreeSubpaving& GridTreeSubpaving::operator=( const GridTreeSubpaving &otherSubset) {
+    _pRootTreeNode = otherSubset._pRootTreeNode;
+    _theGridCell = otherSubset._theGridCell;
+
+    return *this;
+}
+
+inline GridTreeSubpaving* GridTreeSubpaving::_branch(Bool left_or_right) const {
+    return new GridTreeSubpaving(this->branch(left_or_right));
+}
+
+inline ForwardConstantIteratorInterface<GridCell>* GridTreeSubpaving::_begin() const {
+    return new GridTreeConstIterator(this->begin());
+}
+
+inline ForwardConstantIteratorInterface<GridCell>* GridTreeSubpaving::_end() const {
+    return new GridTreeConstIterator(this->end());
+}
+
+Bool GridTreeSubpaving::equals(const SubPavingInterface& paving) const {
+    return (*this) == dynamic_cast<const GridTreeSubpaving&>(paving);
+}
+
+Bool GridTreeSubpaving::superset(const GridCell& theCell) const {
+    return Ariadne::subset(theCell,*this);
+}
+
+Bool GridTreeSubpaving::subset(const SubPavingInterface& paving) const {
+    return Ariadne::subset(*this, dynamic_cast<const GridTreeSubpaving&>(paving));
+}
+
+Bool GridTreeSubpaving::intersects(const SubPavingInterface& paving) const {
+    return Ariadne::intersect(*this, dynamic_cast<const GridTreeSubpaving&>(paving));
+}
+
+GridTreeSubpaving* GridTreeSubpaving::clone( ) const {
+    // Return a GridTreeSet to ensure that memory is copied.
+    GridTreePaving* result = new GridTreePaving(this->grid(),this->_theGridCell.root_extent(),new BinaryTreeNode(false));
+    result->adjoin(*this);
+    return result;
+}
+
+
+GridTreeSubpaving GridTreeSubpaving::branch(Bool left_or_right) const {
+    BinaryWord theWord=this->_theGridCell.word();
+    theWord.append(left_or_right);
+    BinaryTreeNode* pBinaryTreeNode=this->_pRootTreeNode->child_node(left_or_right);
+    return GridTreeSubpaving(this->_theGridCell.grid(),this->_theGridCell.root_extent(),theWord,pBinaryTreeNode);
+}
+
+
+Void GridTreeSubpaving::subdivide( ApproximateDouble theInputMaxCellWidth ) {
+    //1. Take the ExactBoxType of this GridTreeSubset's GridCell
+    //   I.e. the box that corresponds to the root cell of
+    //   the GridTreeSubset in the original space.
+    const ExactBoxType& theRootCellBoxType = _theGridCell.box();
+
+    //2. Compute the widths of the box in each dimension and the maximum number
+    //   among the number of subdivisions that we need to do in each dimension
+    //   in order to make the width in this dimension <= theMaxCellWidth.
+    const DimensionType dimensions = _theGridCell.dimension();
+    Nat max_num_subdiv_dim = 0, num_subdiv = 0, max_subdiv_dim = 0;
+
+    FloatDP theMaxCellWidth(cast_exact(theInputMaxCellWidth),dp);
+
+    for(DimensionType i = 0; i < dimensions; i++){
+        //Get the number of required subdivisions in this dimension
+        //IVAN S ZAPREEV:
+        //NOTE: We compute sub_up because we do not want to have insufficient number of subdivisions
+        num_subdiv = compute_number_subdiv( sub(up, theRootCellBoxType[i].upper_bound(), theRootCellBoxType[i].lower_bound() ) , theMaxCellWidth );
+
+        //Compute the max number of subdivisions and the dimension where to do them
+        if( num_subdiv >= max_num_subdiv_dim ){
+            max_num_subdiv_dim = num_subdiv;
+            max_subdiv_dim = i;
+        }
+    }
+
+    //3. Let the maximum number of subdivisions M has to be done in dimension K  with the total number of
+    //   dimensions N: 1 <= K <= N. This means that from this cell down we have to do M splits for dimension K.
+    Nat needed_num_tree_subdiv = 0;
+    //If we need to subdivide in one of the dimensions then
+    if( max_num_subdiv_dim != 0 ){
+        //3.1 Compute the dimension C for which we had the last split, we should start with the primary cell which is the root of
+        //the GridTreeSet because from this cell we begin subdividing in dimension one by one: 1,2,...,N, then again 1,2,...,N.
+        //The path to the root of the sub-paving is given by the binary word, its length gives the number of tree subdivisions:
+        const Nat pathLength = _theGridCell.word().size();
+        //If pathLength == 0 then there were no subdivisions in the tree, so we assign last_subdiv_dim == -1
+        const Int last_subdiv_dim = ( pathLength == 0 ) ? -1 : static_cast<Int>(( pathLength - 1 )  % dimensions);
+
+        //3.2 Compute the needed number of tree subdivisions by first computing how many subdivisions in the tree
+        //we need to do to reach and split the dimension K one first time and then we should add the remaining
+        //( M - 1 )*N tree subdevisions which will make shure that the K'th dimension is subdivided M times.
+        Nat first_subdiv_steps;
+        if( last_subdiv_dim == static_cast<Int>(max_subdiv_dim) ) {
+            //If last_subdiv_dim == -1 then we will never get here
+            first_subdiv_steps = dimensions; // C == K
+        } else {
+            //If last_subdiv_dim == -1 then we will add a needed extra subdivision
+            first_subdiv_steps = static_cast<Nat>(static_cast<Int>(max_subdiv_dim) - last_subdiv_dim); // C < K
+            if( last_subdiv_dim > static_cast<Int>(max_subdiv_dim) ) {
+                //If last_subdiv_dim == -1 then we will never get here
+                first_subdiv_steps = dimensions - first_subdiv_steps; // C > K
+            }
+        }
+        needed_num_tree_subdiv = first_subdiv_steps + ( max_num_subdiv_dim - 1 ) * dimensions;
+    }
+
+    //Mince to the computed number of tree levels
+    mince_to_tree_depth(needed_num_tree_subdiv);
+}
+
+FloatDPApproximation GridTreeSubpaving::measure() const {
+    FloatDPApproximation result={0.0, dp};
+    for(ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
+        result+=iter->box().measure().value();
+    }
+    return result;
+}
+
+
+
+GridTreeSubpaving::operator ListSet<ExactBoxType>() const {
+    ListSet<ExactBoxType> result(this->root_cell().dimension());
+
+    //IVAN S ZAPREEV:
+    //NOTE: Push back the boxes, note that BoxListSet uses a vector, that
+    //in its turn uses std:vector to store boxes in it (via push_back method),
+    //the latter stores the copies of the boxes, not the references to them.
+    for (GridTreeSubpaving::ConstIterator it = this->begin(), end = this->end(); it != end; it++ ) {
+        result.push_back((*it).box());
+    }
+
+    return result;
+}
+
+Bool GridTreeSubpaving::superset( const ExactBoxType& theBoxType ) const {
+    //Check that the box corresponding to the root node of the set
+    //is not disjoint from theBoxType. If it is then the set is not a
+    //subset of theBoxType otherwise we need to traverse the tree and check
+    //if all it's enabled nodes give boxes that are subsets of theBoxType.
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    Bool isASubSet = theBoxType.subset( root_cell().box() );
+    if( ! isASubSet ) {
+        //If the box is not covered by the cell corresponding to the root node
+        //of the set, then clearly theBoxType is not a subset of this set.
+        return false;
+    } else {
+        //Otherwise, is theBoxType is possibly a subset then we try to see furhter
+        BinaryWord pathCopy( root_cell().word() );
+        return definitely( GridTreeSubpaving::_superset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) ) ;
+    }
+}
+
+Bool GridTreeSubpaving::subset( const ExactBoxType& theBoxType ) const {
+    //Check that the box corresponding to the root node of the set
+    //is not disjoint from theBoxType. If it is then the set is not a
+    //subset of theBoxType otherwise we need to traverse the tree and check
+    //if all it's enabled nodes give boxes that are subsets of theBoxType.
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    BinaryWord pathCopy( root_cell().word() );
+
+    return definitely( GridTreeSubpaving::_subset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) );
+}
+
+Bool GridTreeSubpaving::disjoint( const ExactBoxType& theBoxType ) const {
+    //Check that the box corresponding to the root node of the set
+    //is not disjoint from theBoxType. If it is then the set is not a
+    //subset of theBoxType otherwise we need to traverse the tree and check
+    //if all it's enabled nodes give boxes that are subsets of theBoxType.
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    BinaryWord pathCopy( root_cell().word() );
+
+    return definitely( GridTreeSubpaving::_disjoint( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) );
+}
+
+Bool GridTreeSubpaving::intersects( const ExactBoxType& theBoxType ) const {
+    //Check that the box corresponding to the root node of the set
+    //is not disjoint from theBoxType. If it is then the set is not a
+    //subset of theBoxType otherwise we need to traverse the tree and check
+    //if all it's enabled nodes give boxes that are subsets of theBoxType.
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    BinaryWord pathCopy( root_cell().word() );
+
+    return definitely( GridTreeSubpaving::_intersects( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) );
+}
+
+ValidatedLowerKleenean GridTreeSubpaving::covers( const ExactBoxType& theBoxType ) const {
+    //Simply check if theBoxType is covered by the set and then make sure that
+    //all tree cells that are not disjoint from theBoxType are enabled
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    Bool isASubSet = theBoxType.subset( root_cell().box() );
+    if( ! isASubSet ) {
+        //If the box is not covered by the cell corresponding to the root node
+        //of the set, then clearly theBoxType is not a subset of this set.
+        return false;
+    } else {
+        //Otherwise, is theBoxType is possibly a subset then we try to see furhter
+        BinaryWord pathCopy( root_cell().word() );
+        return GridTreeSubpaving::_superset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(widen(theBoxType)) );
+    }
+}
+
+ValidatedLowerKleenean GridTreeSubpaving::inside( const ExactBoxType& theBoxType ) const {
+    //Check that the box corresponding to the root node of the set
+    //is not disjoint from theBoxType. If it is then the set is not a
+    //subset of theBoxType otherwise we need to traverse the tree and check
+    //if all it's enabled nodes give boxes that are subsets of theBoxType.
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    BinaryWord pathCopy( root_cell().word() );
+
+    return GridTreeSubpaving::_subset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(narrow(theBoxType)) );
+}
+
+ValidatedLowerKleenean GridTreeSubpaving::separated( const ExactBoxType& theBoxType ) const {
+    //Simply check if the box does not intersect with the set
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    BinaryWord pathCopy( root_cell().word() );
+
+    return GridTreeSubpaving::_disjoint( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(widen(theBoxType)) );
+}
+
+ValidatedLowerKleenean GridTreeSubpaving::overlaps( const ExactBoxType& theBoxType ) const {
+    //Check if the box of the root cell overlaps with theBoxType,
+    //if not then theBoxType does not intersect with the cell,
+    //otherwise we need to find at least one enabled node
+    //in the binary tree, such that it's box overlaps theBoxType.
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    BinaryWord pathCopy( root_cell().word() );
+
+    return GridTreeSubpaving::_intersects( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(narrow(theBoxType)) );
+}
+
+ValidatedKleenean GridTreeSubpaving::_superset( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
+                                             const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
+    ValidatedKleenean result;
+
+    //Check if the current node's cell intersects with theBoxType
+    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
+    ValidatedKleenean doIntersect = theCellsBoxType.overlaps( theBoxType );
+
+    if( ! definitely(doIntersect) ) {
+        //If theBoxType does not intersect with the cell then for the covering relation
+        //is is not important if we add or remove this cell, so we return true
+        result = true;
+    } else {
+        //If the cell possibly intersects with theBoxType then
+        if( pCurrentNode->is_leaf() ) {
+            if( pCurrentNode->is_enabled() ){
+                //If this is an enabled node that possibly or definitely intersects
+                //with theBoxType then the covering property is fine, so we return true
+                result = true;
+            } else {
+                //If the node is disabled then if it definitely intersects with theBoxType
+                //we have to report false, as there is not covering, in case it is only
+                //possible intersecting with theBoxType then we return possibly. The latter
+                //is because we are not completely sure, if the intersection does not
+                //have place then the covering property is not broken.
+                result = ! doIntersect;
+            }
+        } else {
+            //The node is not a leaf so we need to go down and see if the cell
+            //falls into sub cells for which we can sort things out
+            theWord.push_back(false);
+            const ValidatedKleenean result_left = GridTreeSubpaving::_superset( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
+            theWord.pop_back();
+
+            if( definitely(not result_left) ) {
+                //If there is definitely no covering property then this is all
+                //we need to know so there is not need to check the other branch.
+                result = false;
+            } else {
+                //If the covering property holds or is possible, then we still
+                //need to check the second branch because it can change the outcome.
+                theWord.push_back(true);
+                const ValidatedKleenean result_right = GridTreeSubpaving::_superset( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
+                theWord.pop_back();
+
+                if( definitely(not result_right) ) {
+                    //IF: The right sub-node reports false, then the result is false
+                    //NOTE: We already sorted out the case of ( (!result_left) == true) before
+                    result = false;
+                } else {
+                    if( definitely(result_left && result_right) ) {
+                        //ELSE: If both sub-nodes report true then it is true
+                        result = true;
+                    } else {
+                        if( is_indeterminate(result_left) || is_indeterminate(result_right) ) {
+                            //ELSE: If one of the sub-nodes reports indeterminate then indeterminate,
+                            result = indeterminate;
+                        } else {
+                            //ELSE: An impossible situation
+                            ARIADNE_ASSERT( false );
+                        }
+                    }
+                }
+            }
+        }
+    }
+
+    return result;
+}
+
+ValidatedKleenean GridTreeSubpaving::_subset( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
+                                           const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
+    ValidatedKleenean result;
+
+    //Check if the current node overlaps with theBoxType
+    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
+    ValidatedKleenean isASubset = theCellsBoxType.subset( theBoxType );
+
+    if( definitely(isASubset) ){
+        //It does not matter if pCurrentNode has enableds leaves or not we already know that the cell
+        //corresponding to this node is geometrically a subset of theBoxType.
+        result = true;
+    } else {
+        //If the cell corresponding to pCurrentNode is not a subset, then
+        if( pCurrentNode->is_leaf() && definitely(not isASubset) ) {
+            //If pCurrentNode is a leaf node and geometrically the cell (corresponding to the node theCellsBoxType) is not a
+            //subset of theBoxType, then: if it is enabled then pCurrentNode is not a subset of theBoxType but otherwise it is.
+            result = ! pCurrentNode->is_enabled();
+        } else {
+            if( pCurrentNode->is_leaf() && is_indeterminate( isASubset ) ) {
+                //If we are in a leaf node but we do not know for sure if the given cell
+                //is a subset of theBoxType then we can only check if it is enabled or not
+                if( pCurrentNode->is_enabled() ){
+                    //For an enabled-leaf node (a filled cell) we do not know if it is a subset of theBoxType
+                    result = indeterminate;
+                } else {
+                    //The node is disabled, so it represents an empty set, which is a subset of any set
+                    result = true;
+                }
+            } else {
+                //The node is not a leaf, and we either know that the cell of pCurrentNode is not a geometrical subset
+                //of theBoxType or we are not sure that it is, This means that we can do recursion to sort things out.
+                theWord.push_back(false);
+                const ValidatedKleenean result_left = GridTreeSubpaving::_subset( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
+                theWord.pop_back();
+
+                if( definitely(not result_left) ) {
+                    //If the left branch is not a subset, then there is no need to check the right one
+                    result = false;
+                } else {
+                    //if we still do not know the answer, then we check the right branch
+                    theWord.push_back(true);
+                    const ValidatedKleenean result_right = GridTreeSubpaving::_subset( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
+                    theWord.pop_back();
+
+                    if( definitely(not result_right) ) {
+                        //IF: The right sub-node reports false, then the result is false
+                        //NOTE: We already sorted out the case of ( (!result_left) == true) before
+                        result = false;
+                    } else {
+                        if( definitely(result_left && result_right) ) {
+                            //ELSE: If both sub-nodes report true then it is true
+                            result = true;
+                        } else {
+                            if( is_indeterminate(result_left) || is_indeterminate(result_right) ) {
+                                //ELSE: If one of the sub-nodes reports indeterminate then indeterminate,
+                                result = indeterminate;
+                            } else {
+                                //ELSE: An impossible situation
+                                ARIADNE_ASSERT( false );
+                            }
+                        }
+                    }
+                }
+            }
+        }
+    }
+
+    return result;
+}
+
+ValidatedKleenean GridTreeSubpaving::_disjoint( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
+                                             const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
+    ValidatedKleenean intersect;
+
+    //Check if the current node overlaps with theBoxType
+    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
+    ValidatedKleenean doPossiblyIntersect = !theCellsBoxType.disjoint( theBoxType );
+
+    if( possibly(doPossiblyIntersect) ) {
+        //If there is a possible intersection then we do the checking
+        if( pCurrentNode->is_leaf() ) {
+            //If this is a leaf node then
+            if( pCurrentNode->is_enabled() ){
+                //If the node is enabled, then we have a possible intersection
+                intersect = doPossiblyIntersect;
+            } else {
+                //Since the node is disabled, there can be no intersection
+                intersect = false;
+            }
+        } else {
+            //The node is not a leaf and the intersection is possible so check the left sub-node
+            theWord.push_back(false);
+            const ValidatedKleenean intersect_left = GridTreeSubpaving::_intersects( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
+            theWord.pop_back();
+
+            //
+            //WARNING: I know how to write a shorter code, like:
+            //          if( ! ( intersect = definitely( intersect_left ) ) ) {
+            //              ...
+            //          }
+            // I DO NOT DO THIS ON PERPOSE, KEEP THE CODE EASILY UNDERSTANDABLE!
+            //
+            if( definitely(intersect_left) ) {
+                //If we definitely have intersection for the left branch then answer is true
+                intersect = true;
+            } else {
+                //If we still not sure/ or do not know then try to search further, i.e. check the right node
+                theWord.push_back(true);
+                const ValidatedKleenean intersect_right = GridTreeSubpaving::_intersects( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
+                theWord.pop_back();
+                if( definitely(intersect_right) ) {
+                    //If we definitely have intersection for the right branch then answer is true
+                    intersect = true;
+                } else {
+                    //Now either we have indeterminate answers or we do not know, if one
+                    //if the answers for one of the branches was indeterminate then we
+                    //report indeterminate, otherwise it is definitely false.
+                    if( is_indeterminate( intersect_left ) || is_indeterminate( intersect_right )  ) {
+                        intersect = indeterminate;
+                    } else {
+                        intersect = false;
+                    }
+                    //ERROR: Substituting the above if statement with the following conditional assignement DOES NOT WORK:
+                    //    intersect = ( ( indeterminate( intersect_left ) || indeterminate( intersect_right ) ) ? indeterminate : false );
+                    //In this case, if we need to assign false, the proper branch of the conditional statement is executed,
+                    //but somehow the value of the "intersect" variable becomes indeterminate!
+                }
+            }
+        }
+    } else {
+        //If there is no intersection then we just stop with a negative intersect
+        intersect = false;
+    }
+
+    return !intersect;
+}
+
+ValidatedKleenean GridTreeSubpaving::_intersects( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
+                                               const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
+    ValidatedKleenean result;
+
+    //Check if the current node overlaps with theBoxType
+    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
+    ValidatedKleenean doPossiblyIntersect = theCellsBoxType.overlaps( theBoxType );
+
+    if( possibly(doPossiblyIntersect) ) {
+        //If there is a possible intersection then we do the checking
+        if( pCurrentNode->is_leaf() ) {
+            //If this is a leaf node then
+            if( pCurrentNode->is_enabled() ){
+                //If the node is enabled, then we have a possible intersection
+                result = doPossiblyIntersect;
+            } else {
+                //Since the node is disabled, there can be no intersection
+                result = false;
+            }
+        } else {
+            //The node is not a leaf and the intersection is possible so check the left sub-node
+            theWord.push_back(false);
+            const ValidatedKleenean result_left = GridTreeSubpaving::_intersects( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
+            theWord.pop_back();
+
+            //
+            //WARNING: I know how to write a shorter code, like:
+            //          if( ! ( result = definitely( result_left ) ) ) {
+            //              ...
+            //          }
+            // I DO NOT DO THIS ON PERPOSE, KEEP THE CODE EASILY UNDERSTANDABLE!
+            //
+            if( definitely(result_left) ) {
+                //If we definitely have intersection for the left branch then answer is true
+                result = true;
+            } else {
+                //If we still not sure/ or do not know then try to search further, i.e. check the right node
+                theWord.push_back(true);
+                const ValidatedKleenean result_right = GridTreeSubpaving::_intersects( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
+                theWord.pop_back();
+                if( definitely(result_right) ) {
+                    //If we definitely have intersection for the right branch then answer is true
+                    result = true;
+                } else {
+                    //Now either we have indeterminate answers or we do not know, if one
+                    //if the answers for one of the branches was indeterminate then we
+                    //report indeterminate, otherwise it is definitely false.
+                    if( is_indeterminate( result_left ) || is_indeterminate( result_right )  ) {
+                        result = indeterminate;
+                    } else {
+                        result = false;
+                    }
+                    //ERROR: Substituting the above if statement with the following conditional assignement DOES NOT WORK:
+                    //    result = ( ( indeterminate( result_left ) || indeterminate( result_right ) ) ? indeterminate : false );
+                    //In this case, if we need to assign false, the proper branch of the conditional statement is executed,
+                    //but somehow the value of the "result" variable becomes indeterminate!
+                }
+            }
+        }
+    } else {
+        //If there is no intersection then we just stop with a negative result
+        result = false;
+    }
+
+    return result;
+}
+
+Void GridTreeSubpaving::draw(CanvasInterface& theGraphic, const Projection2d& theProjection) const {
+    for(GridTreeSubpaving::ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
+        iter->box().draw(theGraphic,theProjection);
+    }
+}
+
+OutputStream&
+GridTreeSubpaving::_write(OutputStream& os) const
+{
+    return os << (*this);
+}
+
+//************************************FRIENDS OF GridTreeSubset*****************************************/
+
+Bool subset( const GridCell& theCell, const GridTreeSubpaving& theSet ) {
+    Bool result = false;
+
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theCell.grid() == theSet.grid() );
+
+    //Test if theCell is a subset of theSet, first check
+    //if the cell can be a subset of the given tree.
+    BinaryWord pathPrefixCell, pathPrefixSet;
+    if( subset( theCell, theSet.root_cell(), &pathPrefixCell, &pathPrefixSet, nullptr) ) {
+        //It can and thus pathPrefixSet is a prefix of pathPrefixCell. Both
+        //paths start in the same primary cell. Also note that pathPrefixSet
+        //is a path from primary_cell_extent to the root node of the binary
+        //tree in theSet. Therefore, removing 0..pathPrefixSet.size() elements
+        //from pathPrefixCell will give us a path to theCell in the tree of theSet.
+        pathPrefixCell.erase( pathPrefixCell.begin(), pathPrefixCell.begin() + static_cast<long>(pathPrefixSet.size()) );
+
+        //Check that the cell given by pathPrefixCell is enabled in the tree of theSet
+        result = theSet.binary_tree()->is_enabled( pathPrefixCell );
+    } else {
+        //DO NOTHING: the cell is a strict superset of the tree
+    }
+    return result;
+}
+
+Bool intersect( const GridCell& theCell, const GridTreeSubpaving& theSet ) {
+    Bool result = false;
+
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theCell.grid() == theSet.grid() );
+
+    //If the primary cell of the theCell is lower that that of theSet
+    //Then we re-root theCell to the primary cell theSet.root_cell().root_extent()
+    const GridCell * pWorkGridCell;
+    const Nat theSetsPCellExtent = theSet.root_cell().root_extent();
+    if( theSetsPCellExtent > theCell.root_extent() ) {
+        //Compute the path from the primary cell of theSet to the primary cell of theCell
+        BinaryWord pathFromSetsPCellToCell = GridCell::primary_cell_path( theCell.dimension(), theSetsPCellExtent, theCell.root_extent() );
+        pathFromSetsPCellToCell.append( theCell.word() );
+        pWorkGridCell = new GridCell( theCell.grid(), theSetsPCellExtent, pathFromSetsPCellToCell );
+    } else {
+        pWorkGridCell = &theCell;
+    }
+
+    //Compute the path for the primary cell of theCell to the primary cell of theSet
+    BinaryWord pathFromPCellCellToSetsRootNode = GridCell::primary_cell_path( theCell.dimension(), pWorkGridCell->root_extent(), theSetsPCellExtent );
+    //Append the path from the primary cell node to the root binary tree node of theSet
+    pathFromPCellCellToSetsRootNode.append( theSet.root_cell().word() );
+
+    const BinaryWord & workCellWord = pWorkGridCell->word();
+    if( workCellWord.is_prefix( pathFromPCellCellToSetsRootNode ) ) {
+        //If the path (from some primary cell) to the cell is a prefix
+        //of the path (from the same primary cell) to the root of the
+        //sub-paving, then theCell contains theSet
+
+        result = theSet.binary_tree()->has_enabled();
+    } else {
+        if( pathFromPCellCellToSetsRootNode.is_prefix( workCellWord ) ) {
+            //If the path (from some primary cell) to the root of the
+            //binary tree node (defining theSet) is the prefix of the
+            //path (from the same primary cell) to the cell, then the
+            //cell might be somwhere within the tree and we should
+            //check if it overlaps with the tree
+
+            const BinaryTreeNode *pCurrentNode = theSet.binary_tree();
+            //Note that, pathFromPCellCellToSetsRootNode.size() < workCellWord.size()
+            //Because we already checked for workCellWord.is_prefix( pathFromPCellCellToSetsRootNode )
+            //Here we try to find the node corresponding to theCell in the binary tree of theSet
+            //in case we encounter a leaf node then we just stop, because it is enough information for us
+            for( SizeType i = pathFromPCellCellToSetsRootNode.size(); i < workCellWord.size(); i++ ) {
+                if( pCurrentNode->is_leaf() ) {
+                    //We reached the leaf node and theCell is it's subset, so we stop now
+                    break;
+                } else {
+                    //Follow the path to the node corresponding to theCell within the binary tree of theSet
+                    pCurrentNode = ( workCellWord[i] ? pCurrentNode->right_node() : pCurrentNode->left_node() );
+                }
+            }
+
+            //At this point we have the following cases:
+            // 1. pCurrentNode - is a leaf node, contains theCell as a subset, is an enabled node
+            // RESULT: theSet and theCell overlap
+            // 2. pCurrentNode - is a leaf node, contains theCell as a subset, is a disabled node
+            // RESULT: theSet and theCell do not overlap
+            // 3. pCurrentNode - is a non-leaf node, corresponds to theCell, contains enabled sub-nodes
+            // RESULT: theSet and theCell overlap
+            // 4. pCurrentNode - is a non-leaf node, corresponds to theCell, contains no enabled sub-nodes
+            // RESULT: theSet and theCell do not overlap
+            result = pCurrentNode->has_enabled();
+        } else {
+            //DO NOTHING: The pathes to the cell and to the root of
+            //the binary tree (from the same primary cell) diverge
+            //This means that theCell and theSet do not overlap
+        }
+    }
+
+    if( theSetsPCellExtent > theCell.root_extent() ) {
+        delete pWorkGridCell;
+    }
+
+    return result;
+}
+
+// This is a helper method, it receives two GridTreeSubset elements
+// then it computes the primary cell that is common to them in a sence that
+// these sets can be rooted to it. After that the method updates the paths
+// with the information about the paths from the found primary cell to the
+// root binary tree nodes of both sets.
+static Void common_primary_cell_path(const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2, BinaryWord &pathCommonPCtoRC1, BinaryWord &pathCommonPCtoRC2 ) {
+    //Get the root cells for the subsets
+    GridCell rootCell1 = theSet1.root_cell();
+    GridCell rootCell2 = theSet2.root_cell();
+    //Get the extents of the primary cells for both subsets
+    const Nat extentPC1 = rootCell1.root_extent();
+    const Nat extentPC2 = rootCell2.root_extent();
+    if( extentPC2 > extentPC1 ) {
+        //Compute the path from the common primary cell to the root cell of theSet1
+        pathCommonPCtoRC1 = GridCell::primary_cell_path( rootCell1.dimension(), extentPC2, extentPC1 );
+        pathCommonPCtoRC1.append( rootCell1.word() );
+        //Compute the path from the common primary cell to the root cell of theSet2
+        pathCommonPCtoRC2 = rootCell2.word();
+    } else {
+        //Compute the path from the common primary cell to the root cell of theSet2
+        pathCommonPCtoRC1 = rootCell1.word();
+        //Compute the path from the common primary cell to the root cell of theSet1
+        pathCommonPCtoRC2 = GridCell::primary_cell_path( rootCell1.dimension(), extentPC1, extentPC2 );
+        pathCommonPCtoRC2.append( rootCell2.word() );
+    }
+}
+
+// This method locates the node in the tree rooted to pSuperTreeRootNode that corresponds to
+//  the path pathFromSuperToSub. In case we encounter a leaf node then we stop and return the node
+static const BinaryTreeNode * locate_node( const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord& pathFromSuperToSub ){
+    //Locate the node in the pSuperTreeRootNode such that it corresponds to pSubTreeRootNode
+    const BinaryTreeNode * pCurrentSuperTreeNode = pSuperTreeRootNode;
+    for( SizeType i = 0; i < pathFromSuperToSub.size(); i++ ) {
+        if( pCurrentSuperTreeNode->is_leaf() ) {
+            //We are in the leaf node and we have not yet reached the node
+            //corresponding to pSubTreeRootNode, because i < pathFromSuperToSub.size()
+            break;
+        } else {
+            pCurrentSuperTreeNode = ( pathFromSuperToSub[i] ? pCurrentSuperTreeNode->right_node() : pCurrentSuperTreeNode->left_node() );
+        }
+    }
+    return pCurrentSuperTreeNode;
+}
+
+// \brief This is a helper functiuon for Bool subset( const GridTreeSubset& theSet1, const GridTreeSubset& theSet2 )
+// pSuperTreeRootNode is the root tree node, pathFromSuperToSub is the path from this root node to the root node
+// pSubTreeRootNode. In general we see if the set represented by pSubTreeRootNode is a subset of pSuperTreeRootNode.
+// If pSubTreeRootNode has no enabled leaf nodes then the result is always true, else if pSuperTreeRootNode has no
+// enabled leaf nodes then the result is always false.
+static Bool subset(const BinaryTreeNode * pSubTreeRootNode, const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord & pathFromSuperToSub) {
+    Bool result = false;
+
+    //Check if both sets are not empty
+    if( pSubTreeRootNode->has_enabled() ) {
+        if( pSuperTreeRootNode->has_enabled() ) {
+            //Locate the node in pSuperTreeRootNode, by following the path pathFromSuperToSub
+            const BinaryTreeNode * pCurrentSuperTreeNode = locate_node( pSuperTreeRootNode, pathFromSuperToSub );
+
+            if( pCurrentSuperTreeNode->is_leaf() ) {
+                //If we've reached the leaf node then pSubTreeRootNode is a subset of pSuperTreeRootNode if this
+                //node is enabled, otherwise not. This is because we know that pSubTreeRootNode is not empty.
+                result = pCurrentSuperTreeNode->is_enabled();
+            } else {
+                //At this point pCurrentSuperTreeNode corresponds to pSubTreeRootNode
+                //So the trees are aligned now and we can continue checking further.
+                result = BinaryTreeNode::subset( pSubTreeRootNode, pCurrentSuperTreeNode );
+            }
+        } else {
+            //Nothing is a subset of an empty set except for an empty
+            //set, but we know that pSubTreeRootNode is not empty.
+            result = false;
+        }
+    } else {
+        //An empty set is a subset of any set including the empty set itself
+        result = true;
+    }
+
+    return result;
+}
+
+// This is a helper functiuon for Bool subset( const GridTreeSubset& theSet1, const GridTreeSubset& theSet2 )
+// pSuperTreeRootNode is the root tree node, pathFromSuperToSub is the path from this root node to the root node
+// pSubTreeRootNode. In general we see if the set represented by pSuperTreeRootNode is a subset of pSubTreeRootNode.
+// If pSuperTreeRootNode has no enabled leaf nodes then the result is always true, else if pSubTreeRootNode has no
+// enabled leaf nodes then the result is always false.
+static Bool subset( const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord & pathFromSuperToSub, const BinaryTreeNode * pSubTreeRootNode ) {
+    Bool result = false;
+
+    //First we iterate throught the path pathFromSuperToSub trying to reach the common node with pSubTreeRootNode
+    //Since we want to know if pSuperTreeRootNode is a subset of pSubTreeRootNode, the branches of pSuperTreeRootNode
+    //that we ommit traveling the path pathFromSuperToSub, should contain no enabled leaf nodes. Because otherwise
+    //pSuperTreeRootNode is not a subset of pSubTreeRootNode. Apart from this, once we encounter a leaf node on the
+    //path we stop because the we can already decide if pSuperTreeRootNode is a subset of pSubTreeRootNode.
+    Nat path_element = 0;
+    Bool areExtraLeavesDisabled = true;
+    const BinaryTreeNode *pCurrentSuperTreeNode = pSuperTreeRootNode;
+    while( ( path_element < pathFromSuperToSub.size() ) && areExtraLeavesDisabled ) {
+        if( pCurrentSuperTreeNode->is_leaf() ){
+            //We ended up in a leaf node so we have to stop iterating through the path
+            break;
+        } else {
+            if( pathFromSuperToSub[ path_element ] ) {
+                //The path goes right, check if the left branch has no enabled leaves
+                areExtraLeavesDisabled = ! pCurrentSuperTreeNode->left_node()->has_enabled();
+                pCurrentSuperTreeNode = pCurrentSuperTreeNode->right_node();
+            } else {
+                //The path goes left, check if the right branch has no enabled leaves
+                areExtraLeavesDisabled = ! pCurrentSuperTreeNode->right_node()->has_enabled();
+                pCurrentSuperTreeNode = pCurrentSuperTreeNode->left_node();
+            }
+        }
+        path_element++;
+    }
+
+    if( areExtraLeavesDisabled ) {
+        //If pSuperTreeRootNode does not have enabled leaves that are outside the bounding cell of
+        //pSubTreeRootNode, this means that pSuperTreeRootNode can be a subset of pSubTreeRootNode.
+        //Now we have to check that:
+        if( pCurrentSuperTreeNode->is_leaf() ) {
+            //A) We reached a leaf node, when following the path, then
+            if( pCurrentSuperTreeNode->is_enabled() ) {
+                //1. If it is enabled then it depends on whether we followed the path to the end
+                if( path_element < pathFromSuperToSub.size() ) {
+                    //1.1 If the path was not finished then pSuperTreeRootNode is a superset of pSubTreeRootNode
+                    result = false;
+                } else {
+                    //1.2 If the path was ended, i.e. pCurrentSuperTreeNode and pSubTreeRootNode are
+                    //aligned, then we simply need to check if one tree is a subset of another:
+                    //     Bool subset(const BinaryTreeNode *, const BinaryTreeNode * )
+                    result = BinaryTreeNode::subset( pCurrentSuperTreeNode, pSubTreeRootNode );
+                }
+            } else {
+                //2. if it is disabled then pSuperTreeRootNode is empty and thus is a subset of theSet2
+                result = true;
+            }
+        } else {
+            //B) We are in a non-leaf node, so we definitely reached the end of the path,
+            //thus proceed like in case A.1.2 (the root nodes of both trees are aligned )
+            result = BinaryTreeNode::subset( pCurrentSuperTreeNode, pSubTreeRootNode );
+        }
+    } else {
+        //If there are enabled leaf nodes in theSet1 that are outside of the bounding cell of
+        //pSubTreeRootNode, then clearly pSuperTreeRootNode is not a subset of pSubTreeRootNode.
+        result = false;
+    }
+    return result;
+}
+
+Bool subset( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
+    Bool result = false;
+
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
+
+    //Define paths for the root cells of theSet1 and theSet2 from the common primary cell
+    BinaryWord pathCommonPCtoRC1;
+    BinaryWord pathCommonPCtoRC2;
+    //Get the paths from the common primary cell to the root nodes of the set's binary trees
+    common_primary_cell_path( theSet1, theSet2, pathCommonPCtoRC1, pathCommonPCtoRC2 );
+
+    //At this point we know paths from the common primary cell
+    //to the root nodes of both subsets. If one of these paths is a prefix of
+    //the other one, then there is a chance that theSet1 is a subset of theSet2.
+    //If not, then they definitely do not overlap.
+    if( pathCommonPCtoRC1.is_prefix( pathCommonPCtoRC2 ) ) {
+        //In this case theSet2 is a subset of the bounding cell of theSet1. Still
+        //it is possible that theSet1 is a subset of theSet2 if all cells of theSet1
+        //outside the bounding box of theSet2 are disabled cells. This we check by
+        //following the path from the foor of theSet1 to the root of theSet2.
+        pathCommonPCtoRC2.erase_prefix( pathCommonPCtoRC1.size() );
+        result = subset( theSet1.binary_tree(), pathCommonPCtoRC2, theSet2.binary_tree() );
+    } else {
+        if( pathCommonPCtoRC2.is_prefix( pathCommonPCtoRC1 ) ) {
+            //Since pathCommonPCtoRC2 is a prefix of pathCommonPCtoRC1,
+            //theSet1 can be a subset of theSet2. This is because theSet1
+            //lies within the bounding cell of theSet2
+            pathCommonPCtoRC1.erase_prefix( pathCommonPCtoRC2.size() );
+            result = subset( theSet1.binary_tree(), theSet2.binary_tree(), pathCommonPCtoRC1 );
+        } else {
+            //theSet1 is a definitely not a subset of theSet2 Since their bounding boxes
+            //are disjoint, due to paths (from the common primary cell to their root nodes)
+            //that have different suffixes.
+            result = false;
+        }
+    }
+
+    return result;
+}
+
+// This is a helper functiuon for Bool overlap( const GridTreeSubset& theSet1, const GridTreeSubset& theSet2 )
+// pSuperTreeRootNode is the root tree node, pathFromSuperToSub is the path from this root node to the root node
+// pSubTreeRootNode. In general we see if the sets represented by pSuperTreeRootNode and pSubTreeRootNode overlap.
+// If at least one of pSuperTreeRootNode and pSubTreeRootNode have no enabled leaf nodes then the result is always false.
+static Bool intersect(const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord & pathFromSuperToSub, const BinaryTreeNode * pSubTreeRootNode) {
+    Bool result = false;
+
+    //Check if both sets are not empty
+    if( pSuperTreeRootNode->has_enabled() && pSubTreeRootNode->has_enabled() ) {
+
+        //Locate the node in pSuperTreeRootNode, by following the path pathFromSuperToSub
+        const BinaryTreeNode * pCurrentSuperTreeNode = locate_node( pSuperTreeRootNode, pathFromSuperToSub );
+
+        if( pCurrentSuperTreeNode->is_leaf() ) {
+            //If we've reached the leaf node then the sets overlap if this node is enabled,
+            //otherwise not. This is because we know that pSubTreeRootNode is not empty.
+            result = pCurrentSuperTreeNode->is_enabled();
+        } else {
+            //At this point pCurrentSuperTreeNode corresponds to pSubTreeRootNode
+            //So the trees are aligned now and we can continue checking further.
+            result = BinaryTreeNode::intersect( pCurrentSuperTreeNode, pSubTreeRootNode );
+        }
+    }
+
+    return result;
+}
+
+Bool intersect( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
+    Bool result = false;
+
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
+
+    //Define paths for the root cells of theSet1 and theSet2 from the common primary cell
+    BinaryWord pathCommonPCtoRC1;
+    BinaryWord pathCommonPCtoRC2;
+    //Get the paths from the common primary cell to the root nodes of the set's binary trees
+    common_primary_cell_path( theSet1, theSet2, pathCommonPCtoRC1, pathCommonPCtoRC2 );
+
+    //At this point we know paths from the common primary cell
+    //to the root nodes of both subsets. If one of these paths is a prefix of
+    //the other one, then there is a chance that the subsets overlap.
+    //If not, then they definitely do not overlap.
+    if( pathCommonPCtoRC1.is_prefix( pathCommonPCtoRC2 ) ){
+        //theSet2 is located somewhere within the bounding box of theSet1
+        pathCommonPCtoRC2.erase_prefix( pathCommonPCtoRC1.size() );
+        result = intersect( theSet1.binary_tree(), pathCommonPCtoRC2, theSet2.binary_tree() );
+    } else {
+        if( pathCommonPCtoRC2.is_prefix( pathCommonPCtoRC1 ) ){
+            //theSet1 is located somewhere within the bounding box of theSet2
+            pathCommonPCtoRC1.erase_prefix( pathCommonPCtoRC2.size() );
+            result = intersect( theSet2.binary_tree(), pathCommonPCtoRC1, theSet1.binary_tree() );
+        } else {
+            //The sets do not overlap
+            result = false;
+        }
+    }
+
+    return result;
+}
+
+OutputStream& operator<<(OutputStream& os, const GridTreeSubpaving& theGridTreeSubset) {
+    return os << "GridTreeSubset( Primary cell: " << theGridTreeSubset.root_cell() << ", " << (*theGridTreeSubset.binary_tree()) <<" )";
+}
+
+
+//********************************************GridTreeSet*********************************************/
+
+GridCell GridTreePaving::smallest_enclosing_primary_cell( const UpperBoxType& theBoxType ) const {
+    ARIADNE_ASSERT_MSG( this->dimension() == theBoxType.dimension(), "Cannot find enclosing cell for ExactBoxType  " << theBoxType << " for GridTreeSet with grid " << this->grid() );
+
+    return GridCell::smallest_enclosing_primary_cell( theBoxType, this->grid() );
+}
+
+Void GridTreePaving::adjoin( const GridCell& theCell ) {
+    ARIADNE_ASSERT_MSG( this->grid() == theCell.grid(), "Cannot adjoin GridCell with grid "<<theCell.grid()<<" to GridTreeSet with grid "<<this->grid() );
+    Bool has_stopped = false;
+    //Align the paving and the cell
+    BinaryTreeNode* pBinaryTreeNode = align_with_cell( theCell.root_extent(), true, false, has_stopped );
+
+    //If we are not trying to adjoin something into an enabled sub cell of the paving
+    if( ! has_stopped ){
+        //Add the enabled cell to the binary tree.
+        pBinaryTreeNode->add_enabled( theCell.word() );
+    }
+}
+
+Void GridTreePaving::adjoin( const GridTreeSubpaving& theOtherSubPaving ) {
+    ARIADNE_ASSERT_MSG( this->grid() == theOtherSubPaving.root_cell().grid(), "Cannot adjoin GridTreeSubset with grid "<<theOtherSubPaving.root_cell().grid()<<" to GridTreeSet with grid "<<this->grid() );
+
+    Bool has_stopped = false;
+    //Align the paving and the cell
+    BinaryTreeNode* pBinaryTreeNode = align_with_cell( theOtherSubPaving.root_cell().root_extent(), true, false, has_stopped );
+
+    //If we are not trying to adjoin something into an enabled sub cell of the paving
+    if( ! has_stopped ){
+        //Now, the pBinaryTreeNode of this paving corresponds to the primary cell common with theOtherSubPaving.
+        //The theOtherSubPaving's root node is defined the path theOtherSubPaving.word() which starts in the
+        //node corresponding to the common primary cell.
+        pBinaryTreeNode->add_enabled( theOtherSubPaving.binary_tree(), theOtherSubPaving.root_cell().word() );
+    }
+}
+
+Void GridTreePaving::adjoin( const SubPavingInterface& theOtherSubPaving ) {
+    this->adjoin(dynamic_cast<const GridTreeSubpaving&>(theOtherSubPaving));
+}
+
+Void GridTreePaving::restrict( const SubPavingInterface& theOtherSubPaving ) {
+    this->restrict(dynamic_cast<const GridTreeSubpaving&>(theOtherSubPaving));
+}
+
+Void GridTreePaving::remove( const SubPavingInterface& theOtherSubPaving ) {
+    this->remove(dynamic_cast<const GridTreeSubpaving&>(theOtherSubPaving));
+}
+
+
+GridTreePaving::GridTreePaving( ) : GridTreeSubpaving( Grid(), 0, BinaryWord(), new BinaryTreeNode( false ) ){
+}
+
+GridTreePaving::GridTreePaving( const Grid& theGrid, const Bool enable  ) :
+    GridTreeSubpaving( theGrid, 0, BinaryWord(), new BinaryTreeNode( enable ) ){
+}
+
+GridTreePaving::GridTreePaving( const Grid& theGrid, const Nat theExtent, BinaryTreeNode * pRootTreeNode ) :
+    GridTreeSubpaving( theGrid, theExtent, BinaryWord(), pRootTreeNode ){
+}
+
+GridTreePaving::GridTreePaving( const GridCell& theGridCell  ) :
+    GridTreeSubpaving( theGridCell.grid(), theGridCell.root_extent(), BinaryWord(), new BinaryTreeNode( false ) ){
+    this->adjoin(theGridCell);
+}
+
+GridTreePaving::GridTreePaving( const Nat theDimension, const Bool enable ) :
+    GridTreeSubpaving( Grid( theDimension, FloatDP(1.0_x,dp) ), 0, BinaryWord(), new BinaryTreeNode( enable )) {
+    //We want a [0,1]x...[0,1] cell in N dimensional space with no sxaling or shift of coordinates:
+    //1. Create a new non scaling grid with no shift of the coordinates
+    //2. The extent of the primary cell is zero, since is is [0,1]x...[0,1] itself
+    //3. The binary word that describes the path from the primary cell to the root
+    //   of the tree is empty, because any paving always has a primary cell as a root
+    //4. A new disabled binary tree node, gives us the root for the paving tree
+}
+
+GridTreePaving::GridTreePaving(const Grid& theGrid, const ExactBoxType & theLatticeBoxType ) :
+    GridTreeSubpaving( theGrid, GridCell::smallest_enclosing_primary_cell_extent( theLatticeBoxType ),
+                    BinaryWord(), new BinaryTreeNode( false ) ) {
+    //1. The main point here is that we have to compute the smallest primary cell that contains theBoundingBoxType
+    //2. This cell is defined by it's extent and becomes the root of the GridTreeSet
+    //3. ExactPoint 2. implies that the word to the root of GridTreeSubset should be set to
+    //   empty and we have only one disabled node in the binary tree
+}
+
+GridTreePaving::GridTreePaving( const Grid& theGrid, Nat theExtent, const BooleanArray& theTree, const BooleanArray& theEnabledCells ) :
+    GridTreeSubpaving( theGrid, theExtent, BinaryWord(), new BinaryTreeNode( theTree, theEnabledCells ) ) {
+    //Use the super class constructor and the binary tree constructed from the arrays: theTree and theEnabledCells
+}
+
+GridTreePaving::GridTreePaving( const GridTreePaving & theGridTreeSet ) :
+    GridTreeSubpaving( theGridTreeSet._theGridCell.grid(), theGridTreeSet._theGridCell.root_extent(),
+                    theGridTreeSet._theGridCell.word(), new BinaryTreeNode( *theGridTreeSet._pRootTreeNode )) {
+    //Call the super constructor: Create an exact copy of the tree, copy the bounding box
+}
+
+GridTreePaving& GridTreePaving::operator=( const GridTreePaving & theGridTreeSet ) {
+    //Delete the old tree and make a new one
+    if(this!=&theGridTreeSet) {
+        if( GridTreeSubpaving::_pRootTreeNode != nullptr){
+            delete GridTreeSubpaving::_pRootTreeNode;
+            GridTreeSubpaving::_pRootTreeNode = nullptr;
+        }
+        static_cast<GridTreeSubpaving&>(*this) =
+            GridTreeSubpaving( theGridTreeSet._theGridCell.grid(), theGridTreeSet._theGridCell.root_extent(),
+                            theGridTreeSet._theGridCell.word(), new BinaryTreeNode( *theGridTreeSet._pRootTreeNode ));
+    }
+    return *this;
+}
+
+GridTreePaving* GridTreePaving::clone() const {
+    return new GridTreePaving( *this );
+}
+
+GridTreePaving::~GridTreePaving() {
+    if( GridTreeSubpaving::_pRootTreeNode != nullptr){
+        delete GridTreeSubpaving::_pRootTreeNode;
+        GridTreeSubpaving::_pRootTreeNode = nullptr;
+    }
+}
+
+Void GridTreePaving::up_to_primary_cell( const Nat toPCellExtent ){
+    const Nat fromPCellExtent = this->root_cell().root_extent();
+
+    //The primary cell of this paving is lower then the one in the other paving so this
+    //paving's has to be rerooted to another primary cell and then we merge the pavings.
+    //1. Compute the path
+    BinaryWord primaryCellPath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), toPCellExtent, fromPCellExtent );
+    //2. Substitute the root node of the paiving with the extended tree
+    this->_pRootTreeNode = BinaryTreeNode::prepend_tree( primaryCellPath, this->_pRootTreeNode );
+    //3. Update the GridCell that corresponds to the root of this GridTreeSubset
+    this->_theGridCell = GridCell( this->_theGridCell.grid(), toPCellExtent, BinaryWord() );
+}
+
+BinaryTreeNode* GridTreePaving::align_with_cell( const Nat otherPavingPCellExtent, const Bool stop_on_enabled,
+                                                 const Bool stop_on_disabled, Bool & has_stopped ) {
+    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
+
+    //The current root node of the GridTreeSet
+    BinaryTreeNode * pBinaryTreeNode = this->_pRootTreeNode;
+
+    if( thisPavingPCellExtent > otherPavingPCellExtent ){
+
+        //The primary cell of this paving is higher then the one of the other paving.
+        //1. We locate the path to the primary cell node common with the other paving
+        BinaryWord primaryCellPath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), thisPavingPCellExtent, otherPavingPCellExtent );
+
+        //2. Locate the binary tree node corresponding to this primnary cell
+        Nat position = 0;
+        while( position < primaryCellPath.size() &&
+               !( has_stopped = ( ( pBinaryTreeNode->is_enabled() && stop_on_enabled ) ||
+                                  ( pBinaryTreeNode->is_disabled() && stop_on_disabled ) ) ) ){
+            //Split the node, if it is not a leaf it will not be changed
+            pBinaryTreeNode->split();
+            //Follow the next path step
+            pBinaryTreeNode = (primaryCellPath[position]) ? pBinaryTreeNode->right_node() : pBinaryTreeNode->left_node();
+            //Move to the next path element
+            position++;
+        }
+    } else {
+        if( thisPavingPCellExtent < otherPavingPCellExtent ) {
+            up_to_primary_cell( otherPavingPCellExtent );
+            pBinaryTreeNode = this->_pRootTreeNode;
+        } else {
+            //If we are rooted to the same primary cell, then there
+            //is nothing to be done, except adding the enabled cell
+        }
+    }
+    return pBinaryTreeNode;
+}
+
+Void GridTreePaving::_adjoin_cell( const Nat theCellRootExtent, BinaryWord const& theCellPath ) {
+    Bool has_stopped = false;
+    BinaryTreeNode* pBinaryTreeNode = this->align_with_cell( theCellRootExtent, true, false, has_stopped );
+    if( ! has_stopped ){
+        //Add the enabled cell to the binary tree.
+        pBinaryTreeNode->add_enabled( theCellPath );
+    }
+}
+
+
+Void GridTreePaving::_adjoin_outer_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
+                                                  const Nat max_mince_tree_depth,  const EffectiveEuclideanCompactSetInterface& theSet, BinaryWord * pPath ){
+    //Compute the cell corresponding to the current node
+    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
+
+    const EffectiveEuclideanOpenSetInterface* pOpenSet=dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(static_cast<const EuclideanSetInterfaceBase*>(&theSet));
+
+    if( definitely( theSet.separated( theCurrentCell.box() ) ) ) {
+        //DO NOTHING: We are in the node whoes representation in the original space is
+        //disjoint from pSet and thus there will be nothing added to this cell.
+    } else if( pOpenSet && definitely( pOpenSet->covers( theCurrentCell.box() ) ) ) {
+        pBinaryTreeNode->make_leaf(true);
+    } else {
+        //This node's cell is not disjoint from theSet, thus it is possible to adjoin elements
+        //of its outer approximation, unless this node is already and enabled leaf node.
+        if( pBinaryTreeNode->is_enabled() ){ //NOTE: A non-leaf node can not be enabled so this check suffices
+            //DO NOTHING: If it is enabled, then we can not add anything new to it.
+        } else {
+            //If the node is not enabled, so may be we can add something from the outer approximation of theSet.
+            if( pPath->size() < max_mince_tree_depth ){
+                //Since we still do not have the finest cells for the outer approximation of theSet, we split
+                pBinaryTreeNode->split(); //NOTE: splitting a non-leaf node does not do any harm
+                //Check the left branch
+                pPath->push_back(false);
+                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+                //Check the right branch
+                pPath->push_back(true);
+                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+            } else {
+                //We should not mince any further, so since the node is a leaf and
+                //it's cell is not disjoint from theSet, we mark the node as enabled.
+                if( !pBinaryTreeNode->is_leaf() ){
+                    //If the node is not leaf, then we make it an enabled one
+                    pBinaryTreeNode->make_leaf(true);
+                } else {
+                    //Just make the node enabled
+                    pBinaryTreeNode->set_enabled();
+                }
+            }
+        }
+    }
+    //Return to the previous level, since the initial evaluate is made
+    //with the empty word, we check that it is not yet empty.
+    if( pPath->size() > 0 ) {
+        pPath->pop_back();
+    }
+}
+
+Void GridTreePaving::_adjoin_outer_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
+                                                  const Nat max_mince_tree_depth,  const ValidatedEuclideanCompactSetInterface& theSet, BinaryWord * pPath ){
+    //Compute the cell correspomding to the current node
+    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
+
+    const EffectiveEuclideanOpenSetInterface* pOpenSet=dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(static_cast<const EuclideanSetInterfaceBase*>(&theSet));
+
+    if( definitely( theSet.separated( theCurrentCell.box() ) ) ) {
+        //DO NOTHING: We are in the node whoes representation in the original space is
+        //disjoint from pSet and thus there will be nothing added to this cell.
+    } else if( pOpenSet && definitely( pOpenSet->covers( theCurrentCell.box() ) ) ) {
+        pBinaryTreeNode->make_leaf(true);
+    } else {
+        //This node's cell is not disjoint from theSet, thus it is possible to adjoin elements
+        //of its outer approximation, unless this node is already and enabled leaf node.
+        if( pBinaryTreeNode->is_enabled() ){ //NOTE: A non-leaf node can not be enabled so this check suffices
+            //DO NOTHING: If it is enabled, then we can not add anything new to it.
+        } else {
+            //If the node is not enabled, so may be we can add something from the outer approximation of theSet.
+            if( pPath->size() < max_mince_tree_depth ){
+                //Since we still do not have the finest cells for the outer approximation of theSet, we split
+                pBinaryTreeNode->split(); //NOTE: splitting a non-leaf node does not do any harm
+                //Check the left branch
+                pPath->push_back(false);
+                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+                //Check the right branch
+                pPath->push_back(true);
+                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+            } else {
+                //We should not mince any further, so since the node is a leaf and
+                //it's cell is not disjoint from theSet, we mark the node as enabled.
+                if( !pBinaryTreeNode->is_leaf() ){
+                    //If the node is not leaf, then we make it an enabled one
+                    pBinaryTreeNode->make_leaf(true);
+                } else {
+                    //Just make the node enabled
+                    pBinaryTreeNode->set_enabled();
+                }
+            }
+        }
+    }
+    //Return to the previous level, since the initial evaluate is made
+    //with the empty word, we check that it is not yet empty.
+    if( pPath->size() > 0 ) {
+        pPath->pop_back();
+    }
+}
+
+// FIXME: This method can fail if we cannot determine which of a node's children overlaps
+// the set. In principle this can be solved by checking if one of the children overlaps
+// the set, before doing recursion, and if none overlaps then we mark the present node as
+// enabled and stop. Generally speaking, the present algorithm is not wrong, it also gives us
+// a lower approximation, but it is simply less accurate than it could be.
+// TODO:Think of another representation in terms of covers but not pavings, then this problem
+// can be cured in a different fashion.
+Void GridTreePaving::_adjoin_lower_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
+                                                  const Nat max_mince_tree_depth,  const EffectiveEuclideanOvertSetInterface& theSet, BinaryWord * pPath ){
+    //Compute the cell correspomding to the current node
+    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
+
+    if( definitely( theSet.overlaps( theCurrentCell.box() ) ) ) {
+        if( pPath->size() >= max_mince_tree_depth ) {
+            //We should not mince any further.
+            //If the cell is not a leaf, then some subset is enabled,
+            //so the lower approximation does not add any information.
+            //If the cell is a leaf, we mark it as enabled.
+            if( ! pBinaryTreeNode->has_enabled() ) {
+                pBinaryTreeNode->make_leaf(true);
+            }
+        } else {
+            //If the node is no enabled, so may be we can add something from the lower approximation of theSet.
+            //Since we still do not have the finest cells for the lower approximation of theSet, we split
+            pBinaryTreeNode->split(); //NOTE: splitting a non-leaf node does not do any harm
+            //Check the left branch
+            pPath->push_back(false);
+            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+            //Check the right branch
+            pPath->push_back(true);
+            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+        }
+    }
+    //Return to the previous level, since the initial evaluate is made
+    //with the empty word, we check that it is not yet empty.
+    if( pPath->size() > 0 ) {
+        pPath->pop_back();
+    }
+}
+
+Void GridTreePaving::_adjoin_lower_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
+                                                  const Nat max_mince_tree_depth,  const EffectiveEuclideanOpenSetInterface& theSet, BinaryWord * pPath ){
+    //Compute the cell corresponding to the current node
+    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
+
+    if( definitely( theSet.covers( theCurrentCell.box() ) ) ) {
+        pBinaryTreeNode->make_leaf(true);
+        pBinaryTreeNode->mince( max_mince_tree_depth - pPath->size() );
+    } else if ( definitely( theSet.overlaps( theCurrentCell.box() ) ) ) {
+        if( pPath->size() >= max_mince_tree_depth ) {
+            //We should not mince any further.
+            //If the cell is not a leaf, then some subset is enabled,
+            //so the lower approximation does not add any information.
+            //If the cell is a leaf, we mark it as enabled.
+            if( pBinaryTreeNode->is_leaf() ) {
+                pBinaryTreeNode->set_enabled();
+            }
+        } else {
+            //Since we still do not have the finest cells for the outer approximation of theSet, we split
+            pBinaryTreeNode->split();  //NOTE: splitting a non-leaf node does not do any harm
+
+            //Check the left branch
+            pPath->push_back(false);
+            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+            //Check the right branch
+            pPath->push_back(true);
+            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+        }
+    }
+    //Return to the previous level, since the initial evaluate is made
+    //with the empty word, we check that it is not yet empty.
+    if( pPath->size() > 0 ) {
+        pPath->pop_back();
+    }
+}
+
+Void GridTreePaving::adjoin_over_approximation( const ExactBoxType& theBoxType, const Nat numSubdivInDim ) {
+    // FIXME: This adjoins an outer approximation; change to ensure only overlapping cells are adjoined
+    for(DimensionType i=0; i!=theBoxType.dimension(); ++i) {
+        if(theBoxType[i].lower_bound()>=theBoxType[i].upper_bound()) {
+            ARIADNE_THROW(std::runtime_error,"GridTreeSet::adjoin_over_approximation(ExactBoxType,Nat)","ExactBoxType "<<theBoxType<<" has empty interior.");
+        }
+    }
+    this->adjoin_outer_approximation(theBoxType,numSubdivInDim);
+}
+
+Void GridTreePaving::adjoin_outer_approximation( const UpperBoxType& theBoxType, const Nat numSubdivInDim ) {
+    ExactBoxSetType theBoxSet=cast_exact_box(theBoxType);
+    EffectiveEuclideanCompactSetInterface const& theSet=theBoxSet;
+    this->adjoin_outer_approximation(theSet,numSubdivInDim);
+}
+
+Void GridTreePaving::adjoin_outer_approximation( const EffectiveEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
+    Grid theGrid( this->root_cell().grid() );
+    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
+
+    //1. Compute the smallest GridCell (corresponding to the primary cell)
+    //   that encloses the theSet (after it is mapped onto theGrid).
+    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theSet.bounding_box(), theGrid );
+    //Compute the extent of the primary cell for the outer approximation stepping up by the number of dimensions
+    const Nat outer_approx_primary_cell_extent = extent + theGrid.dimension();
+
+    //2. Align this paving and paving enclosing the provided set
+    Bool has_stopped = false;
+    BinaryTreeNode* pBinaryTreeNode = align_with_cell( outer_approx_primary_cell_extent, true, false, has_stopped );
+
+    //If the outer aproximation of the bounding box of the provided set is enclosed
+    //in an enabled cell of this paving, then there is nothing to be done. The latter
+    //is because adjoining the outer approx of the set will not change this paving.
+    if( ! has_stopped ){
+        //Compute the depth to which we must mince the outer approximation of the adjoining set.
+        //This depth is relative to the root of the constructed paving, which has been alligned
+        //with the binary tree node pBinaryTreeNode.
+        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, outer_approx_primary_cell_extent, 0 );
+
+        //Adjoin the outer approximation, computing it on the fly.
+        BinaryWord * pEmptyPath = new BinaryWord();
+        _adjoin_outer_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, outer_approx_primary_cell_extent,
+                                     max_mince_tree_depth, theSet, pEmptyPath );
+
+        delete pEmptyPath;
+    }
+}
+
+Void GridTreePaving::adjoin_outer_approximation( const ValidatedEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
+    Grid theGrid( this->root_cell().grid() );
+    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
+
+    //1. Compute the smallest GridCell (corresponding to the primary cell)
+    //   that encloses the theSet (after it is mapped onto theGrid).
+    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theSet.bounding_box(), theGrid );
+    //Compute the extent of the primary cell for the outer approximation stepping up by the number of dimensions
+    const Nat outer_approx_primary_cell_extent = extent + theGrid.dimension();
+
+    //2. Align this paving and paving enclosing the provided set
+    Bool has_stopped = false;
+    BinaryTreeNode* pBinaryTreeNode = align_with_cell( outer_approx_primary_cell_extent, true, false, has_stopped );
+
+    //If the outer aproximation of the bounding box of the provided set is enclosed
+    //in an enabled cell of this paving, then there is nothing to be done. The latter
+    //is because adjoining the outer approx of the set will not change this paving.
+    if( ! has_stopped ){
+        //Compute the depth to which we must mince the outer approximation of the adjoining set.
+        //This depth is relative to the root of the constructed paving, which has been alligned
+        //with the binary tree node pBinaryTreeNode.
+        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, outer_approx_primary_cell_extent, 0 );
+
+        //Adjoin the outer approximation, computing it on the fly.
+        BinaryWord * pEmptyPath = new BinaryWord();
+        _adjoin_outer_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, outer_approx_primary_cell_extent,
+                                     max_mince_tree_depth, theSet, pEmptyPath );
+
+        delete pEmptyPath;
+    }
+}
+
+// TODO:Think of another representation in terms of covers but not pavings, then the implementation
+// will be different, this is why, for now we do not fix these things.
+Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanLocatedSetInterface& theSet, const Nat numSubdivInDim ) {
+    this->adjoin_lower_approximation( theSet, cast_exact_box(theSet.bounding_box()), numSubdivInDim );
+}
+
+Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanOvertSetInterface& theSet, const Nat heightInDim, const Nat numSubdivInDim ) {
+    Grid theGrid( this->root_cell().grid() );
+    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
+
+    //Align this paving and paving at the given extent
+    Bool has_stopped = false;
+    BinaryTreeNode* pBinaryTreeNode = align_with_cell( heightInDim, true, false, has_stopped );
+
+    //If the lower aproximation of the bounding box of the provided set is enclosed
+    //in an enabled cell of this paving, then there is nothing to be done. The latter
+    //is because adjoining the outer approx of the set will not change this paving.
+    if( ! has_stopped ){
+        //Compute the depth to which we must mince the outer approximation of the adjoining set.
+        //This depth is relative to the root of the constructed paving, which has been alligned
+        //with the binary tree node pBinaryTreeNode.
+        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, heightInDim, 0 );
+
+        //Adjoin the outer approximation, computing it on the fly.
+        BinaryWord * pEmptyPath = new BinaryWord();
+        //const EffectiveEuclideanRegularSetInterface* theRegularVersionOfSet = dynamic_cast<const EffectiveEuclideanRegularSetInterface*>(&theSet);
+        const EffectiveEuclideanOpenSetInterface* theOpenVersionOfSet = dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(&theSet);
+        //const EffectiveEuclideanLocatedSetInterface* theLocatedVersionOfSet = dynamic_cast<const EffectiveEuclideanLocatedSetInterface*>(&theSet);
+        const EffectiveEuclideanOvertSetInterface* theOvertVersionOfSet = dynamic_cast<const EffectiveEuclideanOvertSetInterface*>(&theSet);
+        if( theOpenVersionOfSet ) {
+            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOpenVersionOfSet, pEmptyPath );
+        } else {
+            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOvertVersionOfSet, pEmptyPath );
+        }
+        delete pEmptyPath;
+    }
+}
+
+Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanOvertSetInterface& theSet, const ExactBoxType& theBoundingBoxType, const Nat numSubdivInDim ) {
+    Grid theGrid( this->root_cell().grid() );
+    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
+    ARIADNE_ASSERT( theBoundingBoxType.dimension() == this->root_cell().dimension() );
+
+    //Compute the smallest the primary cell that encloses the theSet (after it is mapped onto theGrid).
+    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theBoundingBoxType, theGrid );
+
+    //Adjoin the lower approximation with the bounding cell being the primary cell at the given extent.
+    adjoin_lower_approximation( theSet, extent, numSubdivInDim );
+}
+
+Void GridTreePaving::_adjoin_inner_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
+                                                  const Nat max_mince_tree_depth, const EffectiveEuclideanOpenSetInterface& theSet, BinaryWord * pPath ) {
+    //Compute the cell corresponding to the current node
+    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
+
+    // If the set if closed, then we can use the separated(Box) method to speed-up computation
+    const EffectiveEuclideanClosedSetInterface* theClosedSet = dynamic_cast<const EffectiveEuclideanClosedSetInterface*>(&theSet);
+
+    if( ! pBinaryTreeNode->is_enabled() ) {
+        //If this it is not an enabled leaf node then we can add something to it.
+        if( definitely( theSet.covers( theCurrentCell.box() ) ) ) {
+            //If this node's box is a subset of theSet then it belongs to the inner approximation
+            //Thus we need to make it an enabled leaf and then do the mincing to the maximum depth
+            pBinaryTreeNode->make_leaf( true );
+        } else if ( theClosedSet && !definitely( theClosedSet->separated( theCurrentCell.box() ) ) ) {
+            //If theSet overlaps with the box corresponding to the given node in the original
+            //space, then there might be something to add from the inner approximation of theSet.
+            if( pPath->size() >= max_mince_tree_depth ) {
+                //DO NOTHING: Since it is the maximum depth to which we were allowed to mince
+                //and we know that the node's box only overlaps with theSet but is not it's
+                //subset we have to exclude it from the inner approximation of theSet.
+            } else {
+                //Since we still do not have the finest cells for the outer approximation of theSet, we split
+                pBinaryTreeNode->split();  //NOTE: splitting a non-leaf node does not do any harm
+
+                //Check the left branch
+                pPath->push_back(false);
+                _adjoin_inner_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+                //Check the right branch
+                pPath->push_back(true);
+                _adjoin_inner_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+            }
+        } else {
+            //DO NOTHING: the node's box is disjoint from theSet and thus it or it's
+            //sub nodes can not be the part of the inner approximation of theSet.
+        }
+    } else {
+        //DO NOTHING: If this is an enabled leaf node we are in, then there is nothing to add to it
+        //TODO: We could mince the node until the depth (max_mince_tree_depth - pPath->size()) but I do
+        //not know if it makes any sence to do this, since this does not change the result.
+    }
+
+    //Return to the previous level, since the initial evaluate is made
+    //with the empty word, we check that it is not yet empty.
+    if( pPath->size() > 0 ) {
+        pPath->pop_back();
+    }
+}
+
+Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const Nat extent, const Nat numSubdivInDim ) {
+    Grid theGrid( this->root_cell().grid() );
+    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
+
+    //Align this paving and paving at the given extent
+    Bool has_stopped = false;
+    BinaryTreeNode* pBinaryTreeNode = align_with_cell( extent, true, false, has_stopped );
+
+    //If the inner aproximation of the bounding box of the provided set is enclosed
+    //in an enabled cell of this paving, then there is nothing to be done. The latter
+    //is because adjoining the inner approx of the set will not change this paving.
+    if( ! has_stopped ){
+        //Compute the depth to which we must mince the inner approximation of the adjoining set.
+        //This depth is relative to the root of the constructed paving, which has been alligned
+        //with the binary tree node pBinaryTreeNode.
+        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, extent, 0 );
+
+        //Adjoin the inner approximation, computing it on the fly.
+        BinaryWord * pEmptyPath = new BinaryWord();
+        _adjoin_inner_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, extent, max_mince_tree_depth, theSet, pEmptyPath );
+        delete pEmptyPath;
+    }
+}
+
+Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const ExactBoxType& theBoundingBoxType, const Nat numSubdivInDim ) {
+    Grid theGrid( this->root_cell().grid() );
+    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
+    ARIADNE_ASSERT( theBoundingBoxType.dimension() == this->root_cell().dimension() );
+
+    //Compute the smallest the primary cell that encloses the theSet (after it is mapped onto theGrid).
+    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theBoundingBoxType, theGrid );
+
+    //Compute the extent of the smallest primary cell that encloses the box
+    //Note that, since we will need to adjoin inner approximation bounded by
+    //the theBoundingBoxType, it is enough to take this cell's extent and not to
+    //go higher. Remember that the inner approximations consists of the cells
+    //that are subsets of the set theSet Adjoin the inner approximation with
+    //the bounding cell being the primary cell at the given extent.
+    adjoin_inner_approximation( theSet, extent, numSubdivInDim );
+}
+
+Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanSetInterface& theSet, const Nat numSubdivInDim ) {
+    EffectiveEuclideanOpenSetInterface const& theOpenSet = theSet;
+    ExactBoxType theBoundingBox = cast_exact_box(theSet.bounding_box());
+    this -> adjoin_inner_approximation(theOpenSet, theBoundingBox, numSubdivInDim);
+}
+
+Void GridTreePaving::adjoin_inner_approximation( const LowerBoxType& theBoxType, const Nat numSubdivInDim ) {
+    ExactBoxSetType theBoxSet=cast_exact_box(theBoxType);
+    this->adjoin_inner_approximation(theBoxSet,theBoxSet,numSubdivInDim);
+}
+
+Void GridTreePaving::restrict_to_lower( const GridTreeSubpaving& theOtherSubPaving ){
+    //The root of the binary tree of the current Paving
+    BinaryTreeNode * pBinaryTreeNode = this->_pRootTreeNode;
+
+    //The primary cell of this paving is higher then the one of the other paving.
+    //1. We locate the path to the primary cell node common with the other paving
+    BinaryWord rootNodePath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), this->root_cell().root_extent(), theOtherSubPaving.root_cell().root_extent() );
+
+    //2. Add the suffix path from the primary cell to the root node of
+    //theOtherSubPaving. This is needed in order to be able to reach this root.
+    rootNodePath.append( theOtherSubPaving.root_cell().word() );
+
+    //3. Restrict this binary tree to the other one assuming the path prefix rootNodePath
+    Nat position = 0;
+    //This will point to the children nodes that do not have chance for being in the restriction
+    BinaryTreeNode * pBranchToDisable = nullptr;
+    //Iterate the path, get to the root cell of theOtherSubPaving
+    while( position < rootNodePath.size() ){
+        if( pBinaryTreeNode->is_leaf() ){
+            //If we are in the leaf node then
+            if( pBinaryTreeNode->is_disabled() ){
+                //if it is disabled, then the intersection with
+                //the other set is empty so we just return
+                return;
+            } else {
+                //If it is an enabled leaf node then, because we still need to go further to reach the root cell of
+                //theOtherSubPaving, we split this node and disable the leaf that does not intersect with the other set
+                pBinaryTreeNode->split();
+            }
+        } else {
+            //If this is not a leaf node then we need to follow the path and disable the child
+            //node that is not on the path, because it will not make it into the intersection
+        }
+        //Follow the path and diable the other branch
+        if( rootNodePath[position] ){
+            pBranchToDisable = pBinaryTreeNode->left_node();
+            pBinaryTreeNode = pBinaryTreeNode->right_node();
+        } else {
+            pBranchToDisable = pBinaryTreeNode->right_node();
+            pBinaryTreeNode = pBinaryTreeNode->left_node();
+        }
+        //Move the unused branch into a disabled leaf node
+        pBranchToDisable->make_leaf(false);
+
+        //Move to the next path element
+        position++;
+    }
+    if( pBinaryTreeNode->is_enabled() ){
+        //If we ended up in a leaf node that is disabled, this meand that it is the only enabled node
+        //in this GridTreeSet. At this point it corresponds to the root node of the theOtherSubPaving
+        //and since we need to do the restriction to that set, we just need to copy it to this node.
+        pBinaryTreeNode->copy_from( theOtherSubPaving.binary_tree() );
+        //Return since there is nothing else we need to do
+        return;
+    } else {
+        if( pBinaryTreeNode->is_disabled() ){
+            //if we are in a disabled leaf node the the result of the
+            //restriction is an empty set and we just return
+            return;
+        } else {
+            //If it is two binary tree we have, then we need to restrict
+            //pBinaryTreeNode to theOtherSubPaving._pRootTreeNode
+            BinaryTreeNode::restrict( pBinaryTreeNode, theOtherSubPaving.binary_tree() );
+        }
+    }
+}
+
+Void GridTreePaving::remove_from_lower( const GridTreeSubpaving& theOtherSubPaving ){
+    //The root of the binary tree of the current Paving
+    BinaryTreeNode * pBinaryTreeNode = this->_pRootTreeNode;
+
+    //The primary cell of this paving is higher then the one of the other paving.
+    //1. We locate the path to the primary cell node common with the other paving
+    BinaryWord rootNodePath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), this->root_cell().root_extent(), theOtherSubPaving.root_cell().root_extent() );
+
+    //2. Add the suffix path from the primary cell to the root node of
+    //theOtherSubPaving. This is needed in order to be able to reach this root.
+    rootNodePath.append( theOtherSubPaving.root_cell().word() );
+
+    //3. Remove theOtherSubPaving from this binary tree assuming the path prefix rootNodePath
+    Nat position = 0;
+    //Iterate the path, get to the root cell of theOtherSubPaving
+    while( position < rootNodePath.size() ){
+        if( pBinaryTreeNode->is_leaf() ){
+            //If we are in the leaf node then
+            if( pBinaryTreeNode->is_disabled() ){
+                //if it is disabled, then we are removing from not-enabled cells
+                //so there is nothing to be done and thus we simply terminate
+                return;
+            } else {
+                //If it is an enabled leaf node then, because we still need to go further
+                //to reach the root cell of theOtherSubPaving, we split this node
+                pBinaryTreeNode->split();
+            }
+        } else {
+            //If this is not a leaf node then we need to follow the path and then do removal
+        }
+        //Follow the path and do the removal, the other branch stays intact
+        pBinaryTreeNode = (rootNodePath[position]) ? pBinaryTreeNode->right_node() : pBinaryTreeNode->left_node();
+
+        //Move to the next path element
+        position++;
+    }
+    if( pBinaryTreeNode->is_disabled() ){
+        //If we are in a disabled leaf node the the result of the
+        //removal does not change this set and so we just return
+        return;
+    } else {
+        //We have two aligned binary trees we have to subtract enabled
+        //nodes of theOtherSubPaving._pRootTreeNode from pBinaryTreeNode
+        BinaryTreeNode::remove( pBinaryTreeNode, theOtherSubPaving.binary_tree() );
+    }
+}
+
+Void GridTreePaving::clear(  ) {
+    // TODO: Pieter: This implementation may not be optimal. Please could you
+    // check this, Ivan.
+    *this=GridTreePaving(this->grid());
+}
+
+
+Void GridTreePaving::restrict( const GridTreeSubpaving& theOtherSubPaving ) {
+    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
+    const Nat otherPavingPCellExtent = theOtherSubPaving.root_cell().root_extent();
+
+    ARIADNE_ASSERT( this->grid() == theOtherSubPaving.grid() );
+
+    //In case theOtherSubPaving has the primary cell that is higher then this one
+    //we extend it, i.e. reroot it to the same extent primary cell.
+    if( thisPavingPCellExtent < otherPavingPCellExtent ){
+        up_to_primary_cell( otherPavingPCellExtent );
+    }
+
+    //Now it is simple to restrict this set to another, since this set's
+    //primary cell is not lower then for the other one
+    restrict_to_lower( theOtherSubPaving );
+}
+
+Void GridTreePaving::remove( const GridCell& theCell ) {
+    ARIADNE_ASSERT( this->grid() == theCell.grid() );
+
+    //If needed, extend the tree of this paving and then find it's the
+    //primary cell common with the primary cell of the provided GridCell
+    //If we encounter a disabled node then we do not move on, since then
+    //there is nothing to remove, otherwise we split the node and go down
+    Bool has_stopped = false;
+    BinaryTreeNode* pCurrentPrimaryCell = align_with_cell( theCell.root_extent(), false, true, has_stopped );
+
+    if( ! has_stopped ) {
+        //Follow theCell.word() path in the tree rooted to pCommonPrimaryCell,
+        //do that until we encounter a leaf node, then stop
+        BinaryWord path = theCell.word();
+        Nat position = 0;
+        for(; position < path.size(); position++ ) {
+            //If we are in a leaf node then
+            if( pCurrentPrimaryCell->is_leaf() ) {
+                break;
+            }
+            pCurrentPrimaryCell = path[position] ? pCurrentPrimaryCell->right_node() : pCurrentPrimaryCell->left_node();
+        }
+
+        //Check if we stopped because it was a leaf node
+        if( pCurrentPrimaryCell->is_leaf() ) {
+            if( pCurrentPrimaryCell->is_enabled() ) {
+                //If the node is a leaf and enabled then continue following the path by splitting nodes
+                for(; position < path.size(); position++ ) {
+                    pCurrentPrimaryCell->split();
+                    pCurrentPrimaryCell = path[position] ? pCurrentPrimaryCell->right_node() : pCurrentPrimaryCell->left_node();
+                }
+                //Disable the sub-tree rooted to the tree node we navigated to
+                pCurrentPrimaryCell->set_disabled();
+            } else {
+                //DO NOTHING: The leaf node turns out to be already off,
+                //so there is nothing to remove from
+            }
+        } else {
+            //We followed the path to the cell, but we are still in some non-leaf node at this
+            //point it does no matter what is below, and we just remove the entire sub-tree.
+            pCurrentPrimaryCell->make_leaf( false );
+        }
+    } else {
+        //DO NOTHING: If we stopped it means that we were in a
+        //disabled node, so there is nothing to remove from
+    }
+}
+
+Void GridTreePaving::remove( const GridTreeSubpaving& theOtherSubPaving ) {
+    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
+    const Nat otherPavingPCellExtent = theOtherSubPaving.root_cell().root_extent();
+
+    ARIADNE_ASSERT( this->grid() == theOtherSubPaving.grid() );
+
+    //In case theOtherSubPaving has the primary cell that is higher then this one
+    //we extend it, i.e. reroot it to the same extent primary cell.
+    if( thisPavingPCellExtent < otherPavingPCellExtent ){
+        up_to_primary_cell( otherPavingPCellExtent );
+    }
+
+    //Now it is simple to remove theOtherSubPaving elements from this set,
+    //since this set's primary cell is not lower then for the other one.
+    remove_from_lower( theOtherSubPaving );
+}
+
+Void GridTreePaving::restrict_to_extent( const Nat theExtent ) {
+    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
+
+    if( thisPavingPCellExtent > theExtent){
+        // ARIADNE_WARN("restricting GridTreeSet of extent " << this->root_cell().root_extent() << " to extent " << theExtent << ".");
+
+        BinaryWord pathToPCell = GridCell::primary_cell_path( this->dimension(), thisPavingPCellExtent, theExtent );
+
+        //Go throught the tree and disable all the leaves that
+        //are not rooted to the primary cell defined by this path
+        BinaryTreeNode * pCurrentNode = _pRootTreeNode;
+        for( SizeType i = 0; i < pathToPCell.size(); i++ ) {
+            if( pCurrentNode->is_leaf() ){
+                if( pCurrentNode->is_enabled() ){
+                    //If we are in an enabled leaf node then we split.
+                    //There are still cells to remove.
+                    pCurrentNode->split();
+                } else {
+                    //If we are in a disabled leaf node then we stop.
+                    //There is nothing to be done, because there are
+                    //no more enabled cells to remove
+                    break;
+                }
+            }
+            //If we are here, then we are in a non-leaf node
+            if( pathToPCell[i] ){
+                //Go to the right, and remove anything on the left
+                pCurrentNode->left_node()->make_leaf(false);
+                pCurrentNode = pCurrentNode->right_node();
+            } else {
+                //Go to the left, and remove anything on the right
+                pCurrentNode->right_node()->make_leaf(false);
+                pCurrentNode = pCurrentNode->left_node();
+            }
+        }
+    }
+}
+
+//************************************FRIENDS OF GridTreeSet*****************************************/
+
+GridTreePaving outer_approximation(const ExactBoxType& theBoxType, const Grid& theGrid, const Nat numSubdivInDim) {
+    ExactBoxSetType theBoxSet=theBoxType;
+    EffectiveEuclideanCompactSetInterface const& theSet=theBoxSet;
+    return outer_approximation(theSet,theGrid,numSubdivInDim);
+}
+
+GridTreePaving outer_approximation(const ExactBoxType& theBoxType, const Nat numSubdivInDim) {
+    return outer_approximation(theBoxType, Grid(theBoxType.dimension()), numSubdivInDim);
+}
+
+GridTreePaving outer_approximation( const EffectiveEuclideanCompactSetInterface& theSet, const Grid& theGrid, const Nat numSubdivInDim ) {
+    GridTreePaving result( theGrid );
+    result.adjoin_outer_approximation( theSet, numSubdivInDim );
+    return result;
+}
+
+GridTreePaving outer_approximation( const EffectiveEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
+    Grid theGrid( theSet.dimension() );
+    return outer_approximation( theSet, theGrid, numSubdivInDim );
+}
+
+GridTreePaving outer_approximation( const ValidatedEuclideanCompactSetInterface& theSet, const Grid& theGrid, const Nat numSubdivInDim ) {
+    GridTreePaving result( theGrid );
+    result.adjoin_outer_approximation( theSet, numSubdivInDim );
+    return result;
+}
+
+GridTreePaving outer_approximation( const ValidatedEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
+    Grid theGrid( theSet.dimension() );
+    return outer_approximation( theSet, theGrid, numSubdivInDim );
+}
+
+GridTreePaving inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const Grid& theGrid, const Nat extent, const Nat numSubdivInDim ) {
+    GridTreePaving result( theGrid );
+    result.adjoin_inner_approximation( theSet, extent, numSubdivInDim );
+    return result;
+}
+
+GridTreePaving inner_approximation( const EffectiveEuclideanSetInterface& theSet, const Grid& theGrid, const Nat numSubdivInDim ) {
+    GridTreePaving result( theGrid );
+    result.adjoin_inner_approximation( theSet, numSubdivInDim );
+    return result;
+}
+
+GridTreePaving inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const Grid& theGrid, const ExactBoxType& bounding_box, const Nat numSubdivInDim ) {
+    GridTreePaving result( theGrid );
+    result.adjoin_inner_approximation( theSet, bounding_box, numSubdivInDim );
+    return result;
+}
+
+GridTreePaving join( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
+
+    //Compute the highest primary cell
+    const Nat extentSet1 = theSet1.root_cell().root_extent();
+    const Nat extentSet2 = theSet2.root_cell().root_extent();
+    const Nat maxPCExtent = ( extentSet1 <  extentSet2 ) ? extentSet2 : extentSet1;
+
+    //Create the resulting GridTreeSet
+    GridTreePaving resultSet( theSet1.grid(), maxPCExtent, new BinaryTreeNode() );
+
+    //Adjoin the sets
+    resultSet.adjoin( theSet1 );
+    resultSet.adjoin( theSet2 );
+
+    //Return the result
+    return resultSet;
+}
+
+GridTreePaving intersection( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
+
+    //Compute the highest primary cell
+    const Nat extentSet1 = theSet1.root_cell().root_extent();
+    const Nat extentSet2 = theSet2.root_cell().root_extent();
+    const Nat maxPCExtent = ( extentSet1 <  extentSet2 ) ? extentSet2 : extentSet1;
+
+    //Create the resulting GridTreeSet
+    GridTreePaving resultSet( theSet1.grid(), maxPCExtent, new BinaryTreeNode() );
+
+    //Adjoin the first set
+    resultSet.adjoin( theSet1 );
+    //Intersect the result with the second set
+    resultSet.restrict( theSet2 );
+
+    //Return the result
+    return resultSet;
+}
+
+GridTreePaving difference( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
+
+    //Compute the highest primary cell
+    const Nat extentSet1 = theSet1.root_cell().root_extent();
+    const Nat extentSet2 = theSet2.root_cell().root_extent();
+    const Nat maxPCExtent = ( extentSet1 <  extentSet2 ) ? extentSet2 : extentSet1;
+
+    //Create the resulting GridTreeSet
+    GridTreePaving resultSet( theSet1.grid(), maxPCExtent, new BinaryTreeNode() );
+
+    //Adjoin the first set
+    resultSet.adjoin( theSet1 );
+    //Remove the second set from the result set
+    resultSet.remove( theSet2 );
+
+    //Return the result
+    return resultSet;
+}
+
+
+
+struct LatticeCell {
+    DimensionType _dim;
+    Nat _root;
+    BinaryWord _word;
+};
+
+
+
+BinaryWord product_word(GridCell const& gc1, GridCell const& gc2) {
+    Nat extent = std::max(gc1.root_extent(),gc2.root_extent());
+    Int h1=static_cast<Int>(gc1.root_extent());
+    Int h2=static_cast<Int>(gc2.root_extent());
+    DimensionType n1=gc1.dimension();
+    DimensionType n2=gc2.dimension();
+    Int r1=gc1.depth()/static_cast<Int>(gc1.dimension()); // refinements
+    BinaryWord const& w1=gc1.word();
+    BinaryWord const& w2=gc2.word();
+    BinaryWord word;
+    SizeType i1=0u, i2=0u;
+    Int level=-static_cast<Int>(extent);
+    while (level < r1) {
+        if (-level>h1) {
+            for(DimensionType j=0; j!=n1; ++j) { word.append(level%2); }
+        } else {
+            for(DimensionType j=0; j!=n1; ++j) { word.append(w1[i1]); ++i1; }
+        }
+        if (-level>h2) {
+            for(DimensionType j=0; j!=n2; ++j) { word.append(level%2); }
+        } else {
+            for(DimensionType j=0; j!=n2; ++j) { word.append(w2[i2]); ++i2; }
+        }
+        ++level;
+    }
+    return word;
+}
+
+// The product of two cells of the same depth
+GridCell product(GridCell const& gc1, GridCell const& gc2) {
+    ARIADNE_ASSERT_MSG(gc1.depth()*static_cast<Int>(gc2.dimension())==gc2.depth()*static_cast<Int>(gc1.dimension()),"Computing product of grid cells "<<gc1<<" and "<<gc2<<" which do not have the same depth in each dimension.");
+    GridCell r(join(gc1.grid(),gc2.grid()),std::max(gc1.root_extent(),gc2.root_extent()),product_word(gc1,gc2));
+//    std::cerr<<"r="<<r<<"\nr.box()="<<r.box()<<", product(bx1,bx2)="<<product(gc1.box(),gc2.box())<<"\n";
+//    std::cerr<<"r-codes="<<BinaryCode(tree_height,word).split(n1+n2)<<"\n";
+//    std::cerr<<"gc1-codes="<<BinaryCode(gc1.tree_height(),gc1.word()).split(n1)<<"\n";
+//    std::cerr<<"gc2-codes="<<BinaryCode(gc2.tree_height(),gc2.word()).split(n2)<<"\n";
+    ARIADNE_ASSERT(r.box()==product(gc1.box(),gc2.box()));
+    return r;
+}
+
+// The product of two cells of the same depth
+GridTreePaving product(GridTreeSubpaving const& theSet1, GridTreeSubpaving const& theSet2) {
+    GridTreePaving result(join(theSet1.grid(),theSet2.grid()));
+    for (GridCell const& theCell1 : theSet1) {
+        for (GridCell const& theCell2 : theSet2) {
+            result._adjoin_cell(std::max(theCell1.root_extent(),theCell2.root_extent()),product_word(theCell1,theCell2));
+        }
+    }
+    return result;
+}
+
+// The product of two cells of the same depth
+GridTreePaving product(GridCell const& theCell1, GridTreeSubpaving const& theSet2) {
+    GridTreePaving result(join(theCell1.grid(),theSet2.grid()));
+    for (GridCell const& theCell2 : theSet2) {
+        result.adjoin(product(theCell1,theCell2));
+    }
+    return result;
+}
+
+Void draw(CanvasInterface& theGraphic, const Projection2d& theProjection, const GridCell& theGridCell) {
+    theGridCell.box().draw(theGraphic,theProjection);
+}
+
+Void draw(CanvasInterface& theGraphic, const Projection2d& theProjection, const GridTreePaving& theGridTreeSet) {
+    for(GridTreePaving::ConstIterator iter=theGridTreeSet.begin(); iter!=theGridTreeSet.end(); ++iter) {
+        iter->box().draw(theGraphic,theProjection);
+    }
+}
+
+Void draw(CanvasInterface& theGraphic, const Projection2d& theProjection, const EffectiveEuclideanCompactSetInterface& theSet) {
+    static const Int DRAWING_DEPTH=16;
+    draw(theGraphic,theProjection,outer_approximation(theSet,Grid(theSet.dimension()),DRAWING_DEPTH));
+}
+
+OutputStream& operator<<(OutputStream& os, const GridTreePaving& theGridTreeSet) {
+    const GridTreeSubpaving& theGridTreeSubset = theGridTreeSet;
+    return os << "GridTreeSet( " << theGridTreeSubset << " )";
+}
+
+template<class X> Vector<X> project(Vector<X> const& v, const Array<SizeType>& prj) {
+    return Vector<X>(prj.size(),[&](SizeType i){return v[prj[i]];});
+}
+
+Grid project(Grid const& grd, Array<SizeType> const& prj) {
+    return Grid(project(grd.origin(),prj),project(grd.lengths(),prj));
+}
+
+GridTreePaving image(const GridTreePaving& theSet, const Projection& theProjection) {
+    Grid resultGrid=project(theSet.grid(),theProjection.indices());
+    GridTreePaving theResultSet(resultGrid);
+    for (GridCell const& theCell : theSet) {
+        BinaryWord const& theWord = theCell.word();
+        assert(theWord.size() % theSet.dimension() == 0);
+        BinaryWord resultWord;
+        SizeType n=theWord.size()/theSet.dimension()*theResultSet.dimension();
+        resultWord.reserve(n);
+        for (SizeType i=0; i!=n; ++i) {
+            resultWord.append(theWord[theProjection[i%theResultSet.dimension()]]);
+        }
+        theResultSet._adjoin_cell(theCell.root_extent(),resultWord);
+    }
+    theResultSet.recombine();
+    return theResultSet;
+}
+
+
+GridTreePaving outer_skew_product(GridTreePaving const& gtp1, Grid const& g2, ValidatedVectorMultivariateFunction const& f) {
+    Grid g1=gtp1.grid();
+    Nat tree_depth = gtp1.tree_depth();
+    Nat fineness=tree_depth/g1.dimension()-gtp1.root_cell().root_extent();
+
+    const_cast<GridTreePaving&>(gtp1).mince(fineness);
+    GridTreePaving gtp2(g2);
+    GridTreePaving r(join(g1,g2));
+
+    for (GridCell gc1 : gtp1) {
+        ValidatedConstrainedImageSet s2(gc1.box(),f);
+        gtp2.adjoin_outer_approximation(s2,fineness);
+        gtp2.mince(fineness);
+        for (GridCell gc2 : gtp2) {
+            r.adjoin(product(gc1,gc2));
+        }
+        gtp2.clear();
+    }
+    r.recombine();
+    return r;
+}
+
+
+} // namespace Ariadne
+
-- 
2.43.0


From 7ea217c4191d4bdda666d6e3ec5a2a82c74bd508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:32 +0000
Subject: [PATCH 44/63] fix: an empty subpaving is a subset of any other

---
 source/geometry/grid_paving.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index 1c6a439..c1f36c4 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -1965,10 +1965,10 @@ Bool subset( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2
             pathCommonPCtoRC1.erase_prefix( pathCommonPCtoRC2.size() );
             result = subset( theSet1.binary_tree(), theSet2.binary_tree(), pathCommonPCtoRC1 );
         } else {
-            //theSet1 is a definitely not a subset of theSet2 Since their bounding boxes
-            //are disjoint, due to paths (from the common primary cell to their root nodes)
-            //that have different suffixes.
-            result = false;
+            //The bounding boxes are disjoint, due to paths (from the common primary cell to
+            //their root nodes) that have different suffixes, so theSet1 is a subset of theSet2
+            //only if it is empty.
+            result = !theSet1.binary_tree()->has_enabled();
         }
     }
 
-- 
2.43.0


From 234d728fa7a68a88490279a04b9503e9e76b6d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:32 +0000
Subject: [PATCH 45/63] fix: project every level of a cell when projecting a
 paving

---
 source/geometry/grid_paving.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index c1f36c4..3ec86ba 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -3088,7 +3088,7 @@ GridTreePaving image(const GridTreePaving& theSet, const Projection& theProjecti
         SizeType n=theWord.size()/theSet.dimension()*theResultSet.dimension();
         resultWord.reserve(n);
         for (SizeType i=0; i!=n; ++i) {
-            resultWord.append(theWord[theProjection[i%theResultSet.dimension()]]);
+            resultWord.append(theWord[(i/theResultSet.dimension())*theSet.dimension()+theProjection[i%theResultSet.dimension()]]);
         }
         theResultSet._adjoin_cell(theCell.root_extent(),resultWord);
     }
-- 
2.43.0


From 7c2c61911f81b51037a260b660c9ab99fea871b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:32 +0000
Subject: [PATCH 46/63] fix: derivative of the zeroth power

---
 source/numeric/operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index 0388f24..4e61880 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -292,7 +292,7 @@ struct Div : OperatorObject<Div> {
 struct Pow : OperatorObject<Pow> {
     static constexpr OperatorCode code() { return OperatorCode::POW; } static constexpr OperatorKind kind() { return OperatorKind::GRADED; }
     template<class A, class N> auto operator()(A&& a, N&& n) const -> decltype(pow(a,n)) { return pow(a,n); }
-    template<class X, class N> X derivative(const X& a, N n) const { return n*pow(a,n-1); }
+    template<class X, class N> X derivative(const X& a, N n) const { if(n==0) { return nul(a); } return n*pow(a,n-1); }
     template<class X,class D, class N> D derivative(const X& a, const D& d, N n) const { return derivative(a,n)*d; }
 };
 struct Root : OperatorObject<Root> {
-- 
2.43.0


From 5dd36e2a4bd972f3d8fe145eefb2476c3d2124a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:43 +0000
Subject: [PATCH 47/63] fix: constraint propagation through max and min

---
 source/function/procedure.tpl.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index 261563f..c6283f2 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -247,22 +247,22 @@ template<class X> Void backpropagate(X const& r, Add, X& a1, X& a2) { restrict(a
 template<class X> Void backpropagate(X const& r, Sub, X& a1, X& a2) { restrict(a1,a2+r); restrict(a2,a1-r); }
 template<class X> Void backpropagate(X const& r, Mul, X& a1, X& a2) { restrict(a1,r/a2); restrict(a2,r/a1); }
 template<class X> Void backpropagate(X const& r, Div, X& a1, X& a2) { restrict(a1,a2*r); restrict(a2,a1/r); }
-template<class X> Void backpropagate(X const& r, Max, X& a1, X& a2) { restrict(a1,max(r,a2)); restrict(a2,max(r,a1)); }
-template<class X> Void backpropagate(X const& r, Min, X& a1, X& a2) { restrict(a1,min(r,a2)); restrict(a2,min(r,a1)); }
+template<class X> Void backpropagate(X const& r, Max, X& a1, X& a2) { restrict(a1,min(r,a1)); restrict(a2,min(r,a2)); }
+template<class X> Void backpropagate(X const& r, Min, X& a1, X& a2) { restrict(a1,max(r,a1)); restrict(a2,max(r,a2)); }
 
 template<class X, class Y> Void backpropagate(X const& r, Add, Y const& c1, X& a2) { restrict(a2,r-c1); }
 template<class X, class Y> Void backpropagate(X const& r, Sub, Y const& c1, X& a2) { restrict(a2,c1-r); }
 template<class X, class Y> Void backpropagate(X const& r, Mul, Y const& c1, X& a2) { restrict(a2,r/c1); }
 template<class X, class Y> Void backpropagate(X const& r, Div, Y const& c1, X& a2) { restrict(a2,c1/r); }
-template<class X, class Y> Void backpropagate(X const& r, Max, Y const& c1, X& a2) { restrict(a2,max(r,c1)); }
-template<class X, class Y> Void backpropagate(X const& r, Min, Y const& c1, X& a2) { restrict(a2,min(r,c1)); }
+template<class X, class Y> Void backpropagate(X const& r, Max, Y const& c1, X& a2) { restrict(a2,min(r,a2)); }
+template<class X, class Y> Void backpropagate(X const& r, Min, Y const& c1, X& a2) { restrict(a2,max(r,a2)); }
 
 template<class X, class Y> Void backpropagate(X const& r, Add, X& a1, Y const& c2) { restrict(a1,r-c2); }
 template<class X, class Y> Void backpropagate(X const& r, Sub, X& a1, Y const& c2) { restrict(a1,c2+r); }
 template<class X, class Y> Void backpropagate(X const& r, Mul, X& a1, Y const& c2) { restrict(a1,r/c2); }
 template<class X, class Y> Void backpropagate(X const& r, Div, X& a1, Y const& c2) { restrict(a1,c2*r); }
-template<class X, class Y> Void backpropagate(X const& r, Max, X& a1, Y const& c2) { restrict(a1,max(r,c2)); }
-template<class X, class Y> Void backpropagate(X const& r, Min, X& a1, Y const& c2) { restrict(a1,min(r,c2)); }
+template<class X, class Y> Void backpropagate(X const& r, Max, X& a1, Y const& c2) { restrict(a1,min(r,a1)); }
+template<class X, class Y> Void backpropagate(X const& r, Min, X& a1, Y const& c2) { restrict(a1,max(r,a1)); }
 
 template<class X> Void backpropagate(X const& r, Pos, X& a) { restrict(a,r); }
 template<class X> Void backpropagate(X const& r, Neg, X& a) { restrict(a,neg(r)); }
-- 
2.43.0


From f1ea857e71975d42ae16dfd5328e4a8fdc977a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:50 +0000
Subject: [PATCH 48/63] fix: constraint propagation through powers, halves and
 absolute values

---
 source/function/procedure.tpl.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index c6283f2..b00f221 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -267,8 +267,14 @@ template<class X, class Y> Void backpropagate(X const& r, Min, X& a1, Y const& c
 template<class X> Void backpropagate(X const& r, Pos, X& a) { restrict(a,r); }
 template<class X> Void backpropagate(X const& r, Neg, X& a) { restrict(a,neg(r)); }
 template<class X> Void backpropagate(X const& r, Rec, X& a) { restrict(a,rec(r)); }
+template<class X> Void backpropagate(X const& r, Nul, X& a) { }
+template<class X> Void backpropagate(X const& r, Hlf, X& a) { restrict(a,r+r); }
+template<class X> Void backpropagate(X const& r, Abs, X& a) { restrict(a,max(neg(r),min(r,a))); }
 template<class X> Void backpropagate(X const& r, Sqr, X& a) { restrict(a,sqrt(r)); }
-template<class X> Void backpropagate(X const& r, Pow, X& a, Int n) { restrict(a,exp(log(r)/n)); }
+template<class X> Void backpropagate(X const& r, Pow, X& a, Int n) {
+    // The root is only computed for a positive power; an even power has a negative root as well.
+    if(n!=0 && definitely(r.lower_bound()>0)) {
+        X s=exp(log(r)/n); if(n%2==0) { restrict(a,max(neg(s),min(s,a))); } else { restrict(a,s); } } }
 template<class X> Void backpropagate(X const& r, Sqrt, X& a) { restrict(a,sqr(r)); }
 template<class X> Void backpropagate(X const& r, Exp, X& a) { restrict(a,log(r)); }
 template<class X> Void backpropagate(X const& r, Log, X& a) { restrict(a,exp(r)); }
-- 
2.43.0


From 206ef0611e5acd709b543099cf24860fdffe92d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:50 +0000
Subject: [PATCH 49/63] fix: constraint propagation through trigonometric
 functions

---
 source/function/procedure.tpl.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index b00f221..b5af769 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -278,10 +278,11 @@ template<class X> Void backpropagate(X const& r, Pow, X& a, Int n) {
 template<class X> Void backpropagate(X const& r, Sqrt, X& a) { restrict(a,sqr(r)); }
 template<class X> Void backpropagate(X const& r, Exp, X& a) { restrict(a,log(r)); }
 template<class X> Void backpropagate(X const& r, Log, X& a) { restrict(a,exp(r)); }
-    // FIXME: restricting asin/acos of interval should not be dependent on any branch of asin/acos
-template<class X> Void backpropagate(X const& r, Sin, X& a) { restrict(a,asin(r)); }
-template<class X> Void backpropagate(X const& r, Cos, X& a) { restrict(a,acos(r)); }
-template<class X> Void backpropagate(X const& r, Tan, X& a) { restrict(a,atan(r)); }
+    // The inverse is only used on an interval in its principal branch, away from the extremal values.
+template<class X> Bool within(X const& a, Int l, Int u) { return definitely(a.lower_bound()>=l) && definitely(a.upper_bound()<=u); }
+template<class X> Void backpropagate(X const& r, Sin, X& a) { if(within(a,-1,1)) { restrict(a,asin(r)); } }
+template<class X> Void backpropagate(X const& r, Cos, X& a) { if(within(a,1,3)) { restrict(a,acos(r)); } }
+template<class X> Void backpropagate(X const& r, Tan, X& a) { if(within(a,-1,1)) { restrict(a,atan(r)); } }
 template<class X> Void backpropagate(X const& r, Asin, X& a) { restrict(a,sin(r)); }
 template<class X> Void backpropagate(X const& r, Acos, X& a) { restrict(a,cos(r)); }
 template<class X> Void backpropagate(X const& r, Atan, X& a) { restrict(a,tan(r)); }
-- 
2.43.0


From abe3c7f188e2d6fb121a797ddd409d4d9c668101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:52 +0000
Subject: [PATCH 50/63] fix: gradient of a quotient of first differentials

---
 source/algebra/fixed_differential.hpp | 1546 ++++++++++++-------------
 1 file changed, 773 insertions(+), 773 deletions(-)

diff --git a/source/algebra/fixed_differential.hpp b/source/algebra/fixed_differential.hpp
index 57737eb..e213220 100644
--- a/source/algebra/fixed_differential.hpp
+++ b/source/algebra/fixed_differential.hpp
@@ -1,773 +1,773 @@
-/***************************************************************************
- *            algebra/fixed_differential.hpp
- *
- *  Copyright  2011-20  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-/*! \file algebra/fixed_differential.hpp
- *  \brief First- and second-order multivariate differentials.
- */
-
-#ifndef ARIADNE_FIXED_DIFFERENTIAL_HPP
-#define ARIADNE_FIXED_DIFFERENTIAL_HPP
-
-#include <map>
-
-#include "utility/macros.hpp"
-#include "utility/array.hpp"
-#include "algebra/vector.hpp"
-#include "algebra/matrix.hpp"
-#include "algebra/series.hpp"
-#include "algebra/expansion.hpp"
-#include "algebra/operations.hpp"
-
-#include "algebra/fixed_univariate_differential.hpp"
-
-namespace Ariadne {
-
-template<class X> class Vector;
-template<class X> class Matrix;
-template<class X> class Series;
-
-struct SeriesTag { };
-
-template<class X> class SecondDifferential;
-
-template<class V1, class V2>
-struct SymmetricOuterProduct
-    : public MatrixExpression< SymmetricOuterProduct<V1,V2> >
-{
-    typedef typename V1::value_type value_type;
-    const V1& _v1; const V2& _v2;
-    SymmetricOuterProduct(const V1& v1, const V2& v2) : _v1(v1), _v2(v2) { }
-    value_type operator() (SizeType i, SizeType j) { return _v1[i]*_v2[j]+_v1[j]*_v2[i]; }
-};
-template<class V1, class V2> inline
-SymmetricOuterProduct<V1,V2>
-symmetric_outer_product(const V1& v1, const V2& v2) {
-    return SymmetricOuterProduct<V1,V2>(v1,v2);
-}
-
-template<class V1, class V2>
-struct OuterProduct
-    : public MatrixExpression< OuterProduct<V1,V2> >
-{
-    typedef typename V1::value_type value_type;
-    const V1& _v1; const V2& _v2;
-    OuterProduct(const V1& v1, const V2& v2) : _v1(v1), _v2(v2) { }
-    value_type operator() (SizeType i, SizeType j) { return _v1[i]*_v2[j]; }
-};
-template<class V1, class V2> inline
-OuterProduct<V1,V2>
-outer_product(const V1& v1, const V2& v2) {
-    return OuterProduct<V1,V2>(v1,v2);
-}
-
-/*
-template<class X>
-Matrix<X> outer(const Vector<X>& v1, const Vector<X>& v2) {
-    Matrix<X> r(v1.size(),v2.size());
-    for(SizeType i1=0; i1!=v1.size(); ++i1) {
-        for(SizeType i2=0; i2!=v2.size(); ++i2) {
-            r[i1][i2]=v1[i1]*v2[i2];
-        }
-    }
-    return r;
-}
-
-template<class X>
-Matrix<X> outer(const Vector<X>& v) {
-    return outer(v,v);
-}
-*/
-
-template<class X>
-Matrix<X> outer(const Covector<X>& u1, const Covector<X>& u2) {
-    Matrix<X> r(u1.size(),u2.size());
-    for(SizeType i1=0; i1!=u1.size(); ++i1) {
-        for(SizeType i2=0; i2!=u2.size(); ++i2) {
-            r[i1][i2]=u1[i1]*u2[i2];
-        }
-    }
-    return r;
-}
-
-template<class X>
-Matrix<X> outer(const Covector<X>& u) {
-    return outer(u,u);
-}
-
-template<class X> class FirstDifferential;
-template<class X> class SecondDifferential;
-
-template<class X> class FixedDifferentialCharacteristics {
-    SizeType _argument_size; X _zero_coefficient;
-  public:
-    template<class... PRS> requires Constructible<X,Nat,PRS...>
-        FixedDifferentialCharacteristics(SizeType as, PRS... prs) : _argument_size(as), _zero_coefficient(0u,prs...) { }
-    FixedDifferentialCharacteristics(SizeType as, X const& z) : _argument_size(as), _zero_coefficient(nul(z)) { }
-    FixedDifferentialCharacteristics(const FirstDifferential<X>& d);
-    FixedDifferentialCharacteristics(const SecondDifferential<X>& d);
-    SizeType argument_size() const { return this->_argument_size; }
-    X zero_coefficient() const { return this->_zero_coefficient; }
-};
-
-//! \ingroup DifferentiationModule
-//! \brief A class representing the partial derivatives of a scalar quantity
-//! depending on multiple arguments.
-//!
-//! Based on a power series Expansion, centred on the point at which the partial derivatives are
-//! being evaluated.
-//!
-//! \invariant The expansion is sorted using graded_sort(). In particular, the
-//! total degree of the terms is increasing, and the linear terms appear in coordinate order.
-template<class X>
-class FirstDifferential
-    : public DispatchTranscendentalAlgebraOperations<FirstDifferential<X>,X>
-    , public DispatchLatticeAlgebraOperations<FirstDifferential<X>,X>
-    , public ProvideConcreteGenericArithmeticOperations<FirstDifferential<X>>
-{
-  public:
-    X _value;
-    Covector<X> _gradient;
-  public:
-    //! \brief The type of used to represent numbers in the coefficient.
-    typedef typename X::NumericType NumericType;
-    //! \brief The type of used to represent the coefficients.
-    typedef X ValueType;
-
-    //! \brief Constructs a differential with degree one in \a as variables, and zero element based on \a prs.
-    template<class... PRS> requires Constructible<X,Nat,PRS...> explicit FirstDifferential(SizeType as, PRS... prs)
-        : FirstDifferential(as,X(0u,prs...)) { }
-
-    //! \brief Constructs a differential with degree one in \a as variables, initialising to the zero value z.
-    explicit FirstDifferential(SizeType as, const X& z) : _value(z), _gradient(as,z) { }
-
-    //! \brief Constructs a differential with degree zero in \a as variables. (Deprecated)
-    explicit FirstDifferential(const X& v, const Covector<X>& g) : _value(v), _gradient(g) { }
-
-    //! \brief Conversion constructor from a different numerical type.
-    template<class XX> FirstDifferential(const FirstDifferential<XX>& x)
-        : _value(x._value), _gradient(x._gradient) { }
-
-    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
-    FirstDifferential<X>& operator=(const X& c) { _value=c; X z(c); z=0; for(SizeType i=0; i!=_gradient.size(); ++i) { _gradient[i]=z; } return *this; }
-    template<AssignableTo<X> W>
-        FirstDifferential<X>& operator=(const W& c) { X xc=nul(this->value()); xc=c; return (*this)=xc; }
-
-    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
-    static FirstDifferential<X> constant(SizeType as, const X& c) {
-        FirstDifferential<X> r(as); r._value=c; return r; }
-    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
-    static FirstDifferential<X> variable(SizeType as, const X& v, SizeType j) {
-        FirstDifferential<X> r(as); r._value=v; r._gradient[j]=1; return r; }
-    //! \brief \brief A vector of differentials of degree \a deg in \a as arguments with values \f$c_i+x_i\f$.
-    static Vector< FirstDifferential<X> > variables(const Vector<X>& x) {
-        Vector< FirstDifferential<X> > result(x.size(),FirstDifferential<X>(x.size(),x.zero_element()));
-        for(SizeType j=0; j!=x.size(); ++j) { result[j]._value=x[j]; result[j]._gradient[j]=1; }
-        return result; }
-
-    //! \brief Equality operator.
-    friend EqualityType<X> operator==(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
-        return dx1._value==dx2._value && dx1._gradient==dx2._gradient; }
-
-    //! \brief Inequality operator.
-    friend InequalityType<X> operator!=(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
-        return !(dx1==dx2); }
-
-    //! \brief Comparison operator.
-    friend decltype(auto) operator>=(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
-        return dx1._value>=dx2._value; }
-    //! \brief Comparison operator.
-    friend decltype(auto) operator<=(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
-        return dx1._value<=dx2._value; }
-
-    //! \brief The number of independent variables.
-    SizeType argument_size() const { return this->_gradient.size(); }
-    //! \brief The maximum degree of the stored terms.
-    DegreeType degree() const { return 1u; }
-    //! \brief A zero with the precision argument of the numbers.
-    X zero_coefficient() const { X z=this->_value; z=0; return z; }
-    //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
-    const X& value() const { return this->_value; }
-    //! \brief The vector of coefficients of \f$x_j\f$.
-    const Covector<X>& gradient() const { return this->_gradient; }
-    //! \brief The vector of coefficients of \f$x_j\f$.
-    const X& gradient(SizeType j) const { return this->_gradient[j]; }
-
-
-    //! \brief A reference to the coefficient of \f$x_j\f$.
-    X& operator[](const SizeType& j) { return this->_gradient[j]; }
-    //! \brief The coefficient of \f$x_j\f$.
-    const X& operator[](const SizeType& j) const { return this->_gradient[j]; }
-    //! \brief The coefficient of \f$x^a\f$ i.e. \f$\prod x_j^{a_j}\f$.
-    const X& operator[](const MultiIndex& a) const {
-        ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
-        if(a.degree()==0) { return this->_value; }
-        else if(a.degree()==1) { for(SizeType j=0; j!=this->argument_size(); ++j) { if(a[j]==1) { return this->_gradient[j]; } } }
-        else { ARIADNE_ASSERT_MSG(a.degree()<=1u," d="<<*this<<", a="<<a); } }
-
-    //! \brief Set the coefficient of the constant term to \a c.
-    Void set_value(const X& c) { this->_value=c; }
-
-    //! \brief Set all coefficients to zero.
-    Void clear() { X z=this->_value; z=0; *this=z; }
-
-    friend FirstDifferential<X> compose(UnivariateFirstDifferential<X> const& df, FirstDifferential<X> dg) {
-        return _compose(df,dg); }
-
-    friend OutputStream& operator<<(OutputStream& os, FirstDifferential<X> df) {
-        return df._write(os); }
-
-  private:
-    static FirstDifferential<X> _compose(UnivariateFirstDifferential<X> const&, FirstDifferential<X>);
-    OutputStream& _write(OutputStream&) const;
-};
-
-template<class X> FirstDifferential<X> FirstDifferential<X>::_compose(UnivariateFirstDifferential<X> const& x, FirstDifferential<X> y) {
-    //d/dxi(f(g(x)) = f'(g(x)) dg(x)/dxi
-    //d2/dxi2(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxi + f'(g(x)) d2g(x)/dxi2
-    //d2/dxidxi(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxj + f'(g(x)) d2g(x)/dxidxj
-    y._gradient *= x.gradient();
-    y._value = x._value;
-    return y;
-}
-
-template<class X> OutputStream& FirstDifferential<X>::_write(OutputStream& os) const {
-    FirstDifferential<X>const& x=*this;
-    os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{ ";
-    os << x._value;
-    for(SizeType j=0; j!=x.argument_size(); ++j) {
-        os << (j==0?"; ":",") << j << ":" << x[j];
-    }
-    return os << " }";
-}
-
-
-template<class X> struct AlgebraOperations<FirstDifferential<X>,X> {
-
-    static FirstDifferential<X> apply(Pos, const FirstDifferential<X>& x) {
-        return FirstDifferential<X>(+x._value,+x._gradient); }
-    static FirstDifferential<X> apply(Neg, const FirstDifferential<X>& x) {
-        return FirstDifferential<X>(-x._value,-x._gradient); }
-
-    static FirstDifferential<X> apply(Add, FirstDifferential<X> x, const FirstDifferential<X>& y) {
-        x._value+=y._value; x._gradient+=y._gradient; return x; }
-    static FirstDifferential<X> apply(Sub, FirstDifferential<X> x, const FirstDifferential<X>& y) {
-        x._value-=y._value; x._gradient-=y._gradient; return x; }
-    static FirstDifferential<X> apply(Mul, const FirstDifferential<X>& x, const FirstDifferential<X>& y) {
-        return FirstDifferential<X>(x._value*y._value,x._value*y._gradient+y._value*x._gradient); }
-    static FirstDifferential<X> apply(Div, const FirstDifferential<X>& x, const FirstDifferential<X>& y) {
-        return FirstDifferential<X>(x._value/y._value,((x._value/y._value)*y._gradient+x._gradient)/y._value); }
-
-    static FirstDifferential<X> apply(Add, FirstDifferential<X> x, const X& c) {
-        x._value+=c; return x; }
-    static FirstDifferential<X> apply(Sub, FirstDifferential<X> x, const X& c) {
-        x._value-=c; return x; }
-    static FirstDifferential<X> apply(Mul, FirstDifferential<X> x, const X& c) {
-        x._value*=c; x._gradient*=c; return x; }
-    static FirstDifferential<X> apply(Div, FirstDifferential<X> x, const X& c) {
-        x._value/=c; x._gradient/=c; return x; }
-
-
-    static FirstDifferential<X> apply(Min, const FirstDifferential<X>& x1, const FirstDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
-            ARIADNE_THROW(std::runtime_error,"min(FirstDifferential<X> x1, FirstDifferential<X> x2)","x1[0]==x2[0]"); }
-        return x1.value()<x2.value() ? x1 : x2; }
-    static FirstDifferential<X> apply(Max, const FirstDifferential<X>& x1,const FirstDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
-            ARIADNE_THROW(std::runtime_error,"max(FirstDifferential<X> x1, FirstDifferential<X> x2)","x1[0]==x2[0]"); }
-        return x1.value()>x2.value() ? x1 : x2; }
-    static FirstDifferential<X> apply(Abs, const FirstDifferential<X>& x) {
-        if(x.value()==0) {
-            ARIADNE_THROW(std::runtime_error,"abs(FirstDifferential<X> x)","x[0]==0"); }
-        return x.value()>0 ? pos(x) : neg(x); }
-
-    template<class OP> static FirstDifferential<X> apply(OP op, const FirstDifferential<X>& x) {
-        return compose(UnivariateFirstDifferential<X>(op,x._value),x); }
-
-
-    static FirstDifferential<X> apply(Rec, const FirstDifferential<X>& x) {
-        return FirstDifferential<X>( rec(x._value), x._gradient * (neg(sqr(rec(x._value)))) ); }
-
-    static FirstDifferential<X> apply(Sqr, const FirstDifferential<X>& x) {
-        return FirstDifferential<X>( sqr(x._value), (2*x._value)*x._gradient ); }
-
-    static FirstDifferential<X> apply(Pow, const FirstDifferential<X>& x, Int n) {
-        return FirstDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient ); }
-
-    static FirstDifferential<X> apply(Sqrt, const FirstDifferential<X>& x) {
-        X sqrt_val = sqrt(x._value); return FirstDifferential<X>( sqrt_val, rec(2*sqrt_val)*x._gradient ); }
-
-    static FirstDifferential<X> apply(Exp, const FirstDifferential<X>& x) {
-        X exp_val = exp(x._value); return FirstDifferential<X>( exp_val, exp_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Log, const FirstDifferential<X>& x) {
-        X log_val = log(x._value); X rec_val = rec(x._value); return FirstDifferential<X>( log_val, rec_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Sin, const FirstDifferential<X>& x) {
-        X sin_val = sin(x._value); X cos_val = cos(x._value); return FirstDifferential<X>( sin_val, cos_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Cos, const FirstDifferential<X>& x) {
-        X cos_val = cos(x._value); X neg_sin_val = neg(sin(x._value)); return FirstDifferential<X>( cos_val, neg_sin_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Tan, const FirstDifferential<X>& x) {
-        X tan_val = tan(x._value); X sqr_sec_val = sqr(rec(cos(x._value))); return FirstDifferential<X>( tan_val, sqr_sec_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Asin, const FirstDifferential<X>& x) {
-        X asin_val = asin(x._value); X d_asin_val = rec(sqrt(1.0-sqr(x._value))); return FirstDifferential<X>( asin_val, d_asin_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Acos, const FirstDifferential<X>& x) {
-        X acos_val = acos(x._value); X d_acos_val = neg(rec(sqrt(1.0-sqr(x._value)))); return FirstDifferential<X>( acos_val, d_acos_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Atan, const FirstDifferential<X>& x) {
-        X atan_val = atan(x._value); X d_atan_val = rec(1+sqr(x._value)); return FirstDifferential<X>( atan_val, d_atan_val*x._gradient ); }
-
-};
-
-
-
-
-
-
-
-
-
-/*! \brief A class representing the derivatives of a vector quantity depending on multiple arguments. */
-template<class X>
-class Vector< FirstDifferential<X> >
-    : public VectorExpression< Vector<FirstDifferential<X> > >
-{
-    //BOOST_CONCEPT_ASSERT((DifferentialVectorConcept<DifferentialVector<X> >));
-    FixedDifferentialCharacteristics<X> _chars;
-    Array< FirstDifferential<X> > _ary;
-  public:
-    // The type of the class
-    typedef Vector< FirstDifferential<X> > SelfType;
-    // The type used for accessing elements
-    typedef SizeType IndexType;
-    // The value stored in the vector.
-    typedef FirstDifferential<X> ValueType;
-    // The type used for scalars.
-    typedef X ScalarType;
-
-    Vector(SizeType rs, SizeType as) : _chars(as), _ary(rs, FirstDifferential<X>(as)) { }
-    Vector(SizeType rs, const FirstDifferential<X>& d) : _chars(d),  _ary(rs,d) {
-        for(SizeType i=0; i!=rs; ++i) { (*this)[i]=d; } }
-    Vector(SizeType rs, const FirstDifferential<X>* p) : _chars(p[0]), _ary(rs,FirstDifferential<X>(p[0].argument_size())) {
-        for(SizeType i=0; i!=rs; ++i) { (*this)[i]=p[i]; } }
-    Vector(const Array<FirstDifferential<X>>& ary) : _chars(ary[0]), _ary(ary) { }
-    template<class E> Vector(const VectorExpression<E>& ve);
-    template<class E> Vector< FirstDifferential<X> >& operator=(const VectorExpression<E>& ve);
-
-    SizeType result_size() const { return this->size(); }
-    SizeType argument_size() const { return this->_chars.argument_size(); }
-    DegreeType degree() const { return 1u; }
-
-    SizeType size() const { return this->_ary.size(); }
-    const FirstDifferential<X>& get(SizeType i) const { return _ary[i]; }
-    FirstDifferential<X>& at(SizeType i) { return _ary[i]; }
-    Void set(SizeType i, const FirstDifferential<X>& d) const { _ary[i]=d; }
-    const FirstDifferential<X>& operator[](SizeType i) const { return _ary[i]; }
-    FirstDifferential<X>& operator[](SizeType i) { return _ary[i]; }
-    const FirstDifferential<X> zero_element() const {
-        return FirstDifferential(this->argument_size(),_chars.zero_coefficient()); }
-    const Array<FirstDifferential<X>>& array() const { return _ary; }
-
-    VectorRange<const Vector<FirstDifferential<X>>> operator[](Range rng) const { return project(*this,rng); }
-
-    Vector<X> value() const {
-        Vector<X> r(this->result_size());
-        for(SizeType i=0; i!=r.size(); ++i) { r[i]=(*this)[i].value(); } return r; }
-    Matrix<X> jacobian() const { Matrix<X> r(this->result_size(),this->argument_size(),this->_chars.zero_coefficient());
-        for(SizeType i=0; i!=r.row_size(); ++i) { for(SizeType j=0; j!=r.column_size(); ++j) { r[i][j]=(*this)[i][j]; } } return r; }
-
-    friend Vector<X> value(Vector<FirstDifferential<X>> const& x) { return x.value(); }
-    friend Matrix<X> jacobian(Vector<FirstDifferential<X>> const& x) { return x.jacobian(); }
-
-};
-
-
-
-
-
-//! \ingroup DifferentiationModule
-//! \brief A class representing the partial derivatives of a scalar quantity
-//! depending on multiple arguments.
-//!
-//! Based on a power series Expansion, centred on the point at which the partial derivatives are
-//! being evaluated.
-//!
-//! \invariant The expansion is sorted using graded_sort(). In particular, the
-//! total degree of the terms is increasing, and the linear terms appear in coordinate order.
-template<class X>
-class SecondDifferential
-    : public DispatchTranscendentalAlgebraOperations<SecondDifferential<X>,X>
-    , public DispatchLatticeAlgebraOperations<SecondDifferential<X>,X>
-    , public ProvideConcreteGenericArithmeticOperations<SecondDifferential<X>>
-{
-  public:
-    X _value;
-    Covector<X> _gradient;
-    Matrix<X> _half_hessian;
-  public:
-    //! \brief The type of used to represent numbers in the coefficient.
-    typedef typename X::NumericType NumericType;
-    //! \brief The type of used to represent the coefficients.
-    typedef X ValueType;
-
-    //! \brief Constructs the zero second differential in \a as variables, with elements constructed from parameters \a prs.
-    template<class... PRS> requires Constructible<X,Nat,PRS...> explicit SecondDifferential(SizeType as, PRS... prs) : SecondDifferential<X>(as,X(0u,prs...)) { }
-
-    //! \brief Constructs a constant second differential in \a as variables with value \a c.
-    explicit SecondDifferential(SizeType as, const X& c) : _value(c), _gradient(as,nul(c)), _half_hessian(as,as,nul(c)) { }
-
-    //! \brief Constructs a second differential in \a as variables with value \a v and gradient \a g.
-    explicit SecondDifferential(const X& v, const Covector<X>& g) : _value(v), _gradient(g), _half_hessian(g.size(),g.size(),nul(v)) { }
-
-    //! \brief Constructs a differential with degree zero in \a as variables with value \a v, gradient \a g and hessian \a h.
-    //explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& h) : _value(v), _gradient(g), _half_hessian(h/2) {
-    //    ARIADNE_ASSERT_MSG(h.row_size()==g.size() && h.column_size()==g.size(), "SecondDifferential(v,g,h): v="<<v<<", g="<<g<<", h="<<h); }
-//    explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& half_h) : _value(v), _gradient(g), _half_hessian(half_h) {
-//        ARIADNE_ASSERT_MSG(half_h.row_size()==g.size() && half_h.column_size()==g.size(), "SecondDifferential(v,g,half_h): v="<<v<<", g="<<g<<", half_h="<<half_h); }
-
-    //! \brief Conversion constructor from a different numerical type.
-    template<class XX> SecondDifferential(const SecondDifferential<XX>& x)
-        : _value(x._value), _gradient(x._gradient), _half_hessian(x._half_hessian) { }
-
-    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
-    SecondDifferential<X>& operator=(const X& c) {
-        X z=c; z=0; _value=c; for(SizeType j=0; j!=this->argument_size(); ++j) { _gradient[j]=z;
-            for(SizeType k=0; k!=this->argument_size(); ++k) { _half_hessian[j][k]=z; } } return *this; }
-    template<AssignableTo<X> W>
-        SecondDifferential<X>& operator=(const W& c) { X xc=nul(this->value()); xc=c; return (*this)=xc; }
-
-    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
-    static SecondDifferential<X> constant(SizeType as, const X& c) {
-        SecondDifferential<X> r(as,c.precision()); r._value=c; return r; }
-    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
-    static SecondDifferential<X> variable(SizeType as, const X& v, SizeType j) {
-        SecondDifferential<X> r(as,v.precision()); r._value=v; r._gradient[j]=1; return r; }
-    //! \brief \brief A vector of differentials of degree \a deg in \a as arguments with values \f$c_i+x_i\f$.
-    static Vector< SecondDifferential<X> > variables(const Vector<X>& x) {
-        Vector< SecondDifferential<X> > result(x.size(),SecondDifferential<X>(x.size(),x.zero_element()));
-        for(SizeType j=0; j!=x.size(); ++j) { result[j]._value=x[j]; result[j]._gradient[j]=1; }
-        return result; }
-
-    //! \brief Equality operator.
-    EqualityType<X> operator==(const SecondDifferential<X>& other) const {
-        return this->_value==other._value && this->_gradient==other._gradient  && this->_half_hessian==other._half_hessian; }
-
-    //! \brief Inequality operator.
-    InequalityType<X> operator!=(const SecondDifferential<X>& other) const {
-        return !(*this==other); }
-
-    //! \brief The number of independent variables.
-    SizeType argument_size() const { return this->_gradient.size(); }
-    //! \brief The maximum degree of the stored terms.
-    DegreeType degree() const { return 2u; }
-    //! \brief A zero with the precision argument of the numbers.
-    X zero_coefficient() const { X z=this->_value; z=0; return z; }
-        //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
-    const X& value() const { return this->_value; }
-    //! \brief The vector of coefficients of \f$x_j\f$.
-    const Covector<X>& gradient() const { return this->_gradient; }
-    //! \brief The vector of coefficients of \f$x_j\f$.
-    const X& gradient(SizeType j) const { return this->_gradient[j]; }
-    //! \brief The Hessian matrix.
-    Matrix<X> hessian() const { return this->_half_hessian*2; }
-
-
-    //! \brief A reference to the coefficient of \f$x_j\f$.
-    X& operator[](const SizeType& j) { return this->_gradient[j]; }
-    //! \brief The coefficient of \f$x_j\f$.
-    const X& operator[](const SizeType& j) const { return this->_gradient[j]; }
-    //! \brief The coefficient of \f$x^a\f$ i.e. \f$\prod x_j^{a_j}\f$.
-    const X& operator[](const MultiIndex& a) const {
-        ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
-        if(a.degree()==0) {
-            return this->_value;
-        } else if(a.degree()==1) {
-            for(SizeType j=0; j!=this->argument_size(); ++j) { if(a[j]==1) { return this->_gradient[j]; } }
-        } else if(a.degree()==2) {
-            SizeType j1=0; while (a[j1]==0) { ++j1; }
-            SizeType j2=j1; if (a[j2]==1) { ++j2; while (a[j2]==0) { ++j2; } }
-            return this->_half_hessian[j1][j2];
-        } else {
-            ARIADNE_ASSERT_MSG(a.degree()<=2," d="<<*this<<", a="<<a);
-        }
-    }
-
-    //! \brief Set the coefficient of the constant term to \a c.
-    Void set_value(const X& c) { this->_value=c; }
-
-    //! \brief Set all coefficients to zero.
-    Void clear() { *this=0; }
-
-    friend SecondDifferential<X> compose(UnivariateSecondDifferential<X> const& df, SecondDifferential<X> dg) {
-        return _compose(df,dg); }
-    friend OutputStream& operator<<(OutputStream& os, SecondDifferential<X> df) {
-        return df._write(os); }
-
-  private: public:
-    explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& hh) : _value(v), _gradient(g), _half_hessian(hh) {
-        ARIADNE_ASSERT(hh.row_size()==g.size() && hh.column_size()==g.size()); }
-    explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& hh, SeriesTag) : _value(v), _gradient(g), _half_hessian(hh) {
-        ARIADNE_ASSERT(hh.row_size()==g.size() && hh.column_size()==g.size()); }
-
-    static SecondDifferential<X> _compose(UnivariateSecondDifferential<X> const&, SecondDifferential<X>);
-    OutputStream& _write(OutputStream&) const;
-};
-
-template<class X> SecondDifferential<X> SecondDifferential<X>::_compose(UnivariateSecondDifferential<X> const& x, SecondDifferential<X> y) {
-    //d/dxi(f(g(x)) = f'(g(x)) dg(x)/dxi
-    //d2/dxi2(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxi + f'(g(x)) d2g(x)/dxi2
-    //d2/dxidxi(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxj + f'(g(x)) d2g(x)/dxidxj
-    y._half_hessian *= x.gradient();
-    y._half_hessian += x.half_hessian()*outer(y._gradient);
-    y._gradient *= x.gradient();
-    y._value = x._value;
-    return y;
-}
-
-template<class X> OutputStream& SecondDifferential<X>::_write(OutputStream& os) const {
-    SecondDifferential<X> const& x = *this;
-    os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{";
-    os << x._value;
-    for(SizeType j=0; j!=x.argument_size(); ++j) {
-        os << (j==0?"; ":",") << j << ":" << x[j];
-    }
-    for(SizeType j=0; j!=x.argument_size(); ++j) {
-        for(SizeType k=0; k!=x.argument_size(); ++k) {
-            os << (j==0&&k==0?"; ":",") << j << "," << k << ":" << x._half_hessian[j][k];
-        }
-    }
-    return os << " }";
-}
-
-
-template<class X> struct AlgebraOperations<SecondDifferential<X>,X> {
-
-    static SecondDifferential<X> apply(Pos, const SecondDifferential<X>& x) {
-        return SecondDifferential<X>(+x._value,+x._gradient,+x._half_hessian); }
-    static SecondDifferential<X> apply(Neg, const SecondDifferential<X>& x) {
-        return SecondDifferential<X>(-x._value,-x._gradient,-x._half_hessian); }
-
-    static SecondDifferential<X> apply(Add, SecondDifferential<X> x, const SecondDifferential<X>& y) {
-        x._value += y._value; x._gradient += y._gradient; x._half_hessian += y._half_hessian; return x; }
-    static SecondDifferential<X> apply(Sub, SecondDifferential<X> x, const SecondDifferential<X>& y) {
-        x._value -= y._value; x._gradient -= y._gradient; x._half_hessian -= y._half_hessian; return x; }
-    static SecondDifferential<X> apply(Mul, SecondDifferential<X> x, const SecondDifferential<X>& y) {
-        x._half_hessian *= y._value;
-        x._half_hessian += x._value * y._half_hessian;
-        for(SizeType j=0; j!=x.argument_size(); ++j) { for(SizeType k=0; k!=x.argument_size(); ++k) {
-            x._half_hessian[j][k]+=(x._gradient[j]*y._gradient[k]+x._gradient[k]*y._gradient[j])/2; } }
-        x._gradient *= y._value;
-        x._gradient += x._value * y._gradient;
-        x._value *= y._value;
-        return x;
-    }
-    static SecondDifferential<X> apply(Div, const SecondDifferential<X>& x, SecondDifferential<X> y) {
-        return mul(x,rec(std::move(y))); }
-
-    static SecondDifferential<X> apply(Add, SecondDifferential<X> x, const X& c) {
-        x._value+=c; return x; }
-    static SecondDifferential<X> apply(Sub, SecondDifferential<X> x, const X& c) {
-        x._value-=c; return x; }
-    static SecondDifferential<X> apply(Mul, SecondDifferential<X> x, const X& c) {
-        x._value*=c; x._gradient*=c; x._half_hessian*=c; return x; }
-    static SecondDifferential<X> apply(Div, SecondDifferential<X> x, const X& c) {
-        x._value/=c; x._gradient/=c; x._half_hessian/=c; return x; }
-
-    static SecondDifferential<X> apply(Min, const SecondDifferential<X>& x1, const SecondDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
-        if(x1.value()==x2.value()) {
-            ARIADNE_THROW(std::runtime_error,"min(SecondDifferential<X> x1, SecondDifferential<X> x2)","x1[0]==x2[0]");
-        }
-        return x1.value()<x2.value() ? x1 : x2;
-    }
-    static SecondDifferential<X> apply(Max, const SecondDifferential<X>& x1,const SecondDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
-        if(x1.value()==x2.value()) {
-            ARIADNE_THROW(std::runtime_error,"max(SecondDifferential<X> x1, SecondDifferential<X> x2)","x1[0]==x2[0]");
-        }
-        return x1.value()>x2.value() ? x1 : x2;
-    }
-    static SecondDifferential<X> apply(Abs, const SecondDifferential<X>& x) {
-        if(x.value()==0) {
-            ARIADNE_THROW(std::runtime_error,"abs(SecondDifferential<X> x)","x[0]==0");
-        }
-        return x.value()>0 ? pos(x) : neg(x);
-    }
-
-    template<class OP> static SecondDifferential<X> apply(OP op, const SecondDifferential<X>& x) {
-        return compose(UnivariateSecondDifferential<X>(op,x.value(),x)); }
-
-    static SecondDifferential<X> apply(Rec, const SecondDifferential<X>& x) {
-        X rec_val = rec(x._value);
-        X neg_sqr_rec_val = neg(sqr(rec_val));
-        X cub_rec_val = -rec_val*neg_sqr_rec_val;
-        return SecondDifferential<X>( rec_val, neg_sqr_rec_val*x._gradient, neg_sqr_rec_val*x._half_hessian + cub_rec_val * outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Sqr, const SecondDifferential<X>& x) {
-        return SecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + outer(x._gradient)/2 );
-    }
-
-    static SecondDifferential<X> apply(Pow, const SecondDifferential<X>& x, Int n) {
-        return SecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, n*(n-1)/2*pow(x._value,n-2)*x._half_hessian, SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Sqrt, const SecondDifferential<X>& x) {
-        X sqrt_val = sqrt(x._value);
-        X rec_dbl_sqrt_val = rec(2*sqrt_val);
-        X neg_rec_quad_pow_val = neg(rec(4*sqrt_val*x._value));
-        return SecondDifferential<X>( sqrt_val, rec_dbl_sqrt_val*x._gradient, rec_dbl_sqrt_val*x._half_hessian + neg_rec_quad_pow_val * outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Exp, const SecondDifferential<X>& x) {
-        X exp_val = exp(x._value);
-        return SecondDifferential<X>( exp_val, exp_val*x._gradient, exp_val*x._half_hessian+exp_val*outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Log, const SecondDifferential<X>& x) {
-        X log_val = log(x._value);
-        X rec_val = rec(x._value);
-        X neg_sqr_rec_val = neg(sqr(rec_val));
-        return SecondDifferential<X>( log_val, rec_val*x._gradient, rec_val*x._half_hessian+neg_sqr_rec_val*outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Sin, const SecondDifferential<X>& x) {
-        X sin_val = sin(x._value);
-        X cos_val = cos(x._value);
-        X neg_sin_val = neg(sin_val);
-        return SecondDifferential<X>( sin_val, cos_val*x._gradient, cos_val*x._half_hessian+neg_sin_val*outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Cos, const SecondDifferential<X>& x) {
-        X cos_val = cos(x._value);
-        X neg_sin_val = neg(sin(x._value));
-        X neg_cos_val = neg(cos_val);
-        return SecondDifferential<X>( cos_val, neg_sin_val*x._gradient, neg_sin_val*x._half_hessian+neg_cos_val*outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Tan, const SecondDifferential<X>& x) {
-        X tan_val = tan(x._value);
-        X sqr_sec_val = sqr(rec(cos(x._value)));
-        X dbl_tan_sqr_sec_val = 2*tan_val*sqr_sec_val;
-        return SecondDifferential<X>( tan_val, sqr_sec_val*x._gradient, sqr_sec_val*x._half_hessian+dbl_tan_sqr_sec_val*outer(x._gradient), SeriesTag() );
-    }
-
-};
-
-
-
-
-
-
-
-
-
-/*! \brief A class representing the derivatives of a vector quantity depending on multiple arguments. */
-template<class X>
-class Vector< SecondDifferential<X> >
-    : public VectorExpression< Vector<SecondDifferential<X> > >
-{
-    //BOOST_CONCEPT_ASSERT((DifferentialVectorConcept<DifferentialVector<X> >));
-    FixedDifferentialCharacteristics<X> _chars;
-    Array< SecondDifferential<X> > _ary;
-  public:
-    // The type of the class
-    typedef Vector< SecondDifferential<X> > SelfType;
-    // The type used for accessing elements
-    typedef SizeType IndexType;
-    // The value stored in the vector.
-    typedef SecondDifferential<X> ValueType;
-    // The type used for scalars.
-    typedef X ScalarType;
-
-    template<class... PRS> requires Constructible<X,Nat,PRS...> Vector(SizeType rs, SizeType as, PRS... prs)
-        : _chars(as,prs...), _ary(rs, SecondDifferential<X>(as,prs...)) { }
-    Vector(SizeType rs, const SecondDifferential<X>& d) : _chars(d), _ary(rs,d) { }
-    Vector(SizeType rs, const SecondDifferential<X>* p) : _chars(p[0]), _ary(rs,p) { }
-    Vector(const Array<SecondDifferential<X>>& ary) : _chars(ary[0]), _ary(ary) { }
-    template<class E> Vector(const VectorExpression<E>& ve);
-    template<class E> Vector< SecondDifferential<X> >& operator=(const VectorExpression<E>& ve);
-
-
-    SizeType result_size() const { return this->size(); }
-    SizeType argument_size() const { return this->_chars.argument_size(); }
-    DegreeType degree() const { return 1u; }
-    SecondDifferential<X> zero_element() const {
-        return SecondDifferential<X>(this->argument_size(),this->_chars.zero_coefficient()); }
-    const Array<SecondDifferential<X>>& array() const { return _ary; }
-
-    SizeType size() const { return this->_ary.size(); }
-    const SecondDifferential<X>& get(SizeType i) const { return _ary[i]; }
-    SecondDifferential<X>& at(SizeType i) { return _ary[i]; }
-    Void set(SizeType i, const SecondDifferential<X>& d) const { _ary[i]=d; }
-    const SecondDifferential<X>& operator[](SizeType i) const { return _ary[i]; }
-    SecondDifferential<X>& operator[](SizeType i) { return _ary[i]; }
-
-    VectorRange<const Vector<SecondDifferential<X>>> operator[](Range rng) const { return project(*this,rng); }
-
-    Vector<X> value() const {
-        Vector<X> r(this->result_size());
-        for(SizeType i=0; i!=r.size(); ++i) { r[i]=(*this)[i].value(); } return r; }
-    Matrix<X> jacobian() const { Matrix<X> r(this->result_size(),this->argument_size(),this->_chars.zero_coefficient());
-        for(SizeType i=0; i!=r.row_size(); ++i) { for(SizeType j=0; j!=r.column_size(); ++j) { r[i][j]=(*this)[i].gradient(j); } } return r; }
-
-    friend Vector<X> value(const Vector<SecondDifferential<X>>& x) { return x.value(); }
-    friend Matrix<X> jacobian(const Vector<SecondDifferential<X>>& x) { return x.jacobian(); }
-};
-
-
-template<class X> inline FixedDifferentialCharacteristics<X>::FixedDifferentialCharacteristics(FirstDifferential<X> const& dx)
-    : _argument_size(dx.argument_size()), _zero_coefficient(dx.zero_coefficient())
-{ }
-
-template<class X> inline FixedDifferentialCharacteristics<X>::FixedDifferentialCharacteristics(SecondDifferential<X> const& dx)
-    : _argument_size(dx.argument_size()), _zero_coefficient(dx.zero_coefficient())
-{ }
-
-
-template<class X> class FixedDifferentialFactory {
-    typedef PrecisionType<X> PR;
-    PR _pr;
-  public:
-    FixedDifferentialFactory(PR const& pr) : _pr(pr) { }
-    template<class Y> requires Constructible<X,Y,PR> X create(Y const& y) { return X(y,_pr); }
-    template<class Y> FirstDifferential<X> create(FirstDifferential<Y> const&);
-    template<class Y> SecondDifferential<X> create(SecondDifferential<Y> const&);
-};
-template<class X> inline FixedDifferentialFactory<X> differential_factory(X const& x) {
-    return FixedDifferentialFactory<X>(x.precision()); }
-template<class X> inline FixedDifferentialFactory<X> factory(FirstDifferential<X> const& dx) {
-    return FixedDifferentialFactory<X>(dx.value().precision()); }
-template<class X> inline FixedDifferentialFactory<X> factory(SecondDifferential<X> const& dx) {
-    return FixedDifferentialFactory<X>(dx.value().precision()); }
-
-
-
-
-} //namespace Ariadne
-
-#endif // ARIADNE_FIXED_DIFFERENTIAL_HPP
+/***************************************************************************
+ *            algebra/fixed_differential.hpp
+ *
+ *  Copyright  2011-20  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+/*! \file algebra/fixed_differential.hpp
+ *  \brief First- and second-order multivariate differentials.
+ */
+
+#ifndef ARIADNE_FIXED_DIFFERENTIAL_HPP
+#define ARIADNE_FIXED_DIFFERENTIAL_HPP
+
+#include <map>
+
+#include "utility/macros.hpp"
+#include "utility/array.hpp"
+#include "algebra/vector.hpp"
+#include "algebra/matrix.hpp"
+#include "algebra/series.hpp"
+#include "algebra/expansion.hpp"
+#include "algebra/operations.hpp"
+
+#include "algebra/fixed_univariate_differential.hpp"
+
+namespace Ariadne {
+
+template<class X> class Vector;
+template<class X> class Matrix;
+template<class X> class Series;
+
+struct SeriesTag { };
+
+template<class X> class SecondDifferential;
+
+template<class V1, class V2>
+struct SymmetricOuterProduct
+    : public MatrixExpression< SymmetricOuterProduct<V1,V2> >
+{
+    typedef typename V1::value_type value_type;
+    const V1& _v1; const V2& _v2;
+    SymmetricOuterProduct(const V1& v1, const V2& v2) : _v1(v1), _v2(v2) { }
+    value_type operator() (SizeType i, SizeType j) { return _v1[i]*_v2[j]+_v1[j]*_v2[i]; }
+};
+template<class V1, class V2> inline
+SymmetricOuterProduct<V1,V2>
+symmetric_outer_product(const V1& v1, const V2& v2) {
+    return SymmetricOuterProduct<V1,V2>(v1,v2);
+}
+
+template<class V1, class V2>
+struct OuterProduct
+    : public MatrixExpression< OuterProduct<V1,V2> >
+{
+    typedef typename V1::value_type value_type;
+    const V1& _v1; const V2& _v2;
+    OuterProduct(const V1& v1, const V2& v2) : _v1(v1), _v2(v2) { }
+    value_type operator() (SizeType i, SizeType j) { return _v1[i]*_v2[j]; }
+};
+template<class V1, class V2> inline
+OuterProduct<V1,V2>
+outer_product(const V1& v1, const V2& v2) {
+    return OuterProduct<V1,V2>(v1,v2);
+}
+
+/*
+template<class X>
+Matrix<X> outer(const Vector<X>& v1, const Vector<X>& v2) {
+    Matrix<X> r(v1.size(),v2.size());
+    for(SizeType i1=0; i1!=v1.size(); ++i1) {
+        for(SizeType i2=0; i2!=v2.size(); ++i2) {
+            r[i1][i2]=v1[i1]*v2[i2];
+        }
+    }
+    return r;
+}
+
+template<class X>
+Matrix<X> outer(const Vector<X>& v) {
+    return outer(v,v);
+}
+*/
+
+template<class X>
+Matrix<X> outer(const Covector<X>& u1, const Covector<X>& u2) {
+    Matrix<X> r(u1.size(),u2.size());
+    for(SizeType i1=0; i1!=u1.size(); ++i1) {
+        for(SizeType i2=0; i2!=u2.size(); ++i2) {
+            r[i1][i2]=u1[i1]*u2[i2];
+        }
+    }
+    return r;
+}
+
+template<class X>
+Matrix<X> outer(const Covector<X>& u) {
+    return outer(u,u);
+}
+
+template<class X> class FirstDifferential;
+template<class X> class SecondDifferential;
+
+template<class X> class FixedDifferentialCharacteristics {
+    SizeType _argument_size; X _zero_coefficient;
+  public:
+    template<class... PRS> requires Constructible<X,Nat,PRS...>
+        FixedDifferentialCharacteristics(SizeType as, PRS... prs) : _argument_size(as), _zero_coefficient(0u,prs...) { }
+    FixedDifferentialCharacteristics(SizeType as, X const& z) : _argument_size(as), _zero_coefficient(nul(z)) { }
+    FixedDifferentialCharacteristics(const FirstDifferential<X>& d);
+    FixedDifferentialCharacteristics(const SecondDifferential<X>& d);
+    SizeType argument_size() const { return this->_argument_size; }
+    X zero_coefficient() const { return this->_zero_coefficient; }
+};
+
+//! \ingroup DifferentiationModule
+//! \brief A class representing the partial derivatives of a scalar quantity
+//! depending on multiple arguments.
+//!
+//! Based on a power series Expansion, centred on the point at which the partial derivatives are
+//! being evaluated.
+//!
+//! \invariant The expansion is sorted using graded_sort(). In particular, the
+//! total degree of the terms is increasing, and the linear terms appear in coordinate order.
+template<class X>
+class FirstDifferential
+    : public DispatchTranscendentalAlgebraOperations<FirstDifferential<X>,X>
+    , public DispatchLatticeAlgebraOperations<FirstDifferential<X>,X>
+    , public ProvideConcreteGenericArithmeticOperations<FirstDifferential<X>>
+{
+  public:
+    X _value;
+    Covector<X> _gradient;
+  public:
+    //! \brief The type of used to represent numbers in the coefficient.
+    typedef typename X::NumericType NumericType;
+    //! \brief The type of used to represent the coefficients.
+    typedef X ValueType;
+
+    //! \brief Constructs a differential with degree one in \a as variables, and zero element based on \a prs.
+    template<class... PRS> requires Constructible<X,Nat,PRS...> explicit FirstDifferential(SizeType as, PRS... prs)
+        : FirstDifferential(as,X(0u,prs...)) { }
+
+    //! \brief Constructs a differential with degree one in \a as variables, initialising to the zero value z.
+    explicit FirstDifferential(SizeType as, const X& z) : _value(z), _gradient(as,z) { }
+
+    //! \brief Constructs a differential with degree zero in \a as variables. (Deprecated)
+    explicit FirstDifferential(const X& v, const Covector<X>& g) : _value(v), _gradient(g) { }
+
+    //! \brief Conversion constructor from a different numerical type.
+    template<class XX> FirstDifferential(const FirstDifferential<XX>& x)
+        : _value(x._value), _gradient(x._gradient) { }
+
+    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
+    FirstDifferential<X>& operator=(const X& c) { _value=c; X z(c); z=0; for(SizeType i=0; i!=_gradient.size(); ++i) { _gradient[i]=z; } return *this; }
+    template<AssignableTo<X> W>
+        FirstDifferential<X>& operator=(const W& c) { X xc=nul(this->value()); xc=c; return (*this)=xc; }
+
+    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
+    static FirstDifferential<X> constant(SizeType as, const X& c) {
+        FirstDifferential<X> r(as); r._value=c; return r; }
+    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
+    static FirstDifferential<X> variable(SizeType as, const X& v, SizeType j) {
+        FirstDifferential<X> r(as); r._value=v; r._gradient[j]=1; return r; }
+    //! \brief \brief A vector of differentials of degree \a deg in \a as arguments with values \f$c_i+x_i\f$.
+    static Vector< FirstDifferential<X> > variables(const Vector<X>& x) {
+        Vector< FirstDifferential<X> > result(x.size(),FirstDifferential<X>(x.size(),x.zero_element()));
+        for(SizeType j=0; j!=x.size(); ++j) { result[j]._value=x[j]; result[j]._gradient[j]=1; }
+        return result; }
+
+    //! \brief Equality operator.
+    friend EqualityType<X> operator==(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
+        return dx1._value==dx2._value && dx1._gradient==dx2._gradient; }
+
+    //! \brief Inequality operator.
+    friend InequalityType<X> operator!=(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
+        return !(dx1==dx2); }
+
+    //! \brief Comparison operator.
+    friend decltype(auto) operator>=(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
+        return dx1._value>=dx2._value; }
+    //! \brief Comparison operator.
+    friend decltype(auto) operator<=(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
+        return dx1._value<=dx2._value; }
+
+    //! \brief The number of independent variables.
+    SizeType argument_size() const { return this->_gradient.size(); }
+    //! \brief The maximum degree of the stored terms.
+    DegreeType degree() const { return 1u; }
+    //! \brief A zero with the precision argument of the numbers.
+    X zero_coefficient() const { X z=this->_value; z=0; return z; }
+    //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
+    const X& value() const { return this->_value; }
+    //! \brief The vector of coefficients of \f$x_j\f$.
+    const Covector<X>& gradient() const { return this->_gradient; }
+    //! \brief The vector of coefficients of \f$x_j\f$.
+    const X& gradient(SizeType j) const { return this->_gradient[j]; }
+
+
+    //! \brief A reference to the coefficient of \f$x_j\f$.
+    X& operator[](const SizeType& j) { return this->_gradient[j]; }
+    //! \brief The coefficient of \f$x_j\f$.
+    const X& operator[](const SizeType& j) const { return this->_gradient[j]; }
+    //! \brief The coefficient of \f$x^a\f$ i.e. \f$\prod x_j^{a_j}\f$.
+    const X& operator[](const MultiIndex& a) const {
+        ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
+        if(a.degree()==0) { return this->_value; }
+        else if(a.degree()==1) { for(SizeType j=0; j!=this->argument_size(); ++j) { if(a[j]==1) { return this->_gradient[j]; } } }
+        else { ARIADNE_ASSERT_MSG(a.degree()<=1u," d="<<*this<<", a="<<a); } }
+
+    //! \brief Set the coefficient of the constant term to \a c.
+    Void set_value(const X& c) { this->_value=c; }
+
+    //! \brief Set all coefficients to zero.
+    Void clear() { X z=this->_value; z=0; *this=z; }
+
+    friend FirstDifferential<X> compose(UnivariateFirstDifferential<X> const& df, FirstDifferential<X> dg) {
+        return _compose(df,dg); }
+
+    friend OutputStream& operator<<(OutputStream& os, FirstDifferential<X> df) {
+        return df._write(os); }
+
+  private:
+    static FirstDifferential<X> _compose(UnivariateFirstDifferential<X> const&, FirstDifferential<X>);
+    OutputStream& _write(OutputStream&) const;
+};
+
+template<class X> FirstDifferential<X> FirstDifferential<X>::_compose(UnivariateFirstDifferential<X> const& x, FirstDifferential<X> y) {
+    //d/dxi(f(g(x)) = f'(g(x)) dg(x)/dxi
+    //d2/dxi2(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxi + f'(g(x)) d2g(x)/dxi2
+    //d2/dxidxi(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxj + f'(g(x)) d2g(x)/dxidxj
+    y._gradient *= x.gradient();
+    y._value = x._value;
+    return y;
+}
+
+template<class X> OutputStream& FirstDifferential<X>::_write(OutputStream& os) const {
+    FirstDifferential<X>const& x=*this;
+    os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{ ";
+    os << x._value;
+    for(SizeType j=0; j!=x.argument_size(); ++j) {
+        os << (j==0?"; ":",") << j << ":" << x[j];
+    }
+    return os << " }";
+}
+
+
+template<class X> struct AlgebraOperations<FirstDifferential<X>,X> {
+
+    static FirstDifferential<X> apply(Pos, const FirstDifferential<X>& x) {
+        return FirstDifferential<X>(+x._value,+x._gradient); }
+    static FirstDifferential<X> apply(Neg, const FirstDifferential<X>& x) {
+        return FirstDifferential<X>(-x._value,-x._gradient); }
+
+    static FirstDifferential<X> apply(Add, FirstDifferential<X> x, const FirstDifferential<X>& y) {
+        x._value+=y._value; x._gradient+=y._gradient; return x; }
+    static FirstDifferential<X> apply(Sub, FirstDifferential<X> x, const FirstDifferential<X>& y) {
+        x._value-=y._value; x._gradient-=y._gradient; return x; }
+    static FirstDifferential<X> apply(Mul, const FirstDifferential<X>& x, const FirstDifferential<X>& y) {
+        return FirstDifferential<X>(x._value*y._value,x._value*y._gradient+y._value*x._gradient); }
+    static FirstDifferential<X> apply(Div, const FirstDifferential<X>& x, const FirstDifferential<X>& y) {
+        return FirstDifferential<X>(x._value/y._value,(x._gradient-(x._value/y._value)*y._gradient)/y._value); }
+
+    static FirstDifferential<X> apply(Add, FirstDifferential<X> x, const X& c) {
+        x._value+=c; return x; }
+    static FirstDifferential<X> apply(Sub, FirstDifferential<X> x, const X& c) {
+        x._value-=c; return x; }
+    static FirstDifferential<X> apply(Mul, FirstDifferential<X> x, const X& c) {
+        x._value*=c; x._gradient*=c; return x; }
+    static FirstDifferential<X> apply(Div, FirstDifferential<X> x, const X& c) {
+        x._value/=c; x._gradient/=c; return x; }
+
+
+    static FirstDifferential<X> apply(Min, const FirstDifferential<X>& x1, const FirstDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
+            ARIADNE_THROW(std::runtime_error,"min(FirstDifferential<X> x1, FirstDifferential<X> x2)","x1[0]==x2[0]"); }
+        return x1.value()<x2.value() ? x1 : x2; }
+    static FirstDifferential<X> apply(Max, const FirstDifferential<X>& x1,const FirstDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
+            ARIADNE_THROW(std::runtime_error,"max(FirstDifferential<X> x1, FirstDifferential<X> x2)","x1[0]==x2[0]"); }
+        return x1.value()>x2.value() ? x1 : x2; }
+    static FirstDifferential<X> apply(Abs, const FirstDifferential<X>& x) {
+        if(x.value()==0) {
+            ARIADNE_THROW(std::runtime_error,"abs(FirstDifferential<X> x)","x[0]==0"); }
+        return x.value()>0 ? pos(x) : neg(x); }
+
+    template<class OP> static FirstDifferential<X> apply(OP op, const FirstDifferential<X>& x) {
+        return compose(UnivariateFirstDifferential<X>(op,x._value),x); }
+
+
+    static FirstDifferential<X> apply(Rec, const FirstDifferential<X>& x) {
+        return FirstDifferential<X>( rec(x._value), x._gradient * (neg(sqr(rec(x._value)))) ); }
+
+    static FirstDifferential<X> apply(Sqr, const FirstDifferential<X>& x) {
+        return FirstDifferential<X>( sqr(x._value), (2*x._value)*x._gradient ); }
+
+    static FirstDifferential<X> apply(Pow, const FirstDifferential<X>& x, Int n) {
+        return FirstDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient ); }
+
+    static FirstDifferential<X> apply(Sqrt, const FirstDifferential<X>& x) {
+        X sqrt_val = sqrt(x._value); return FirstDifferential<X>( sqrt_val, rec(2*sqrt_val)*x._gradient ); }
+
+    static FirstDifferential<X> apply(Exp, const FirstDifferential<X>& x) {
+        X exp_val = exp(x._value); return FirstDifferential<X>( exp_val, exp_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Log, const FirstDifferential<X>& x) {
+        X log_val = log(x._value); X rec_val = rec(x._value); return FirstDifferential<X>( log_val, rec_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Sin, const FirstDifferential<X>& x) {
+        X sin_val = sin(x._value); X cos_val = cos(x._value); return FirstDifferential<X>( sin_val, cos_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Cos, const FirstDifferential<X>& x) {
+        X cos_val = cos(x._value); X neg_sin_val = neg(sin(x._value)); return FirstDifferential<X>( cos_val, neg_sin_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Tan, const FirstDifferential<X>& x) {
+        X tan_val = tan(x._value); X sqr_sec_val = sqr(rec(cos(x._value))); return FirstDifferential<X>( tan_val, sqr_sec_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Asin, const FirstDifferential<X>& x) {
+        X asin_val = asin(x._value); X d_asin_val = rec(sqrt(1.0-sqr(x._value))); return FirstDifferential<X>( asin_val, d_asin_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Acos, const FirstDifferential<X>& x) {
+        X acos_val = acos(x._value); X d_acos_val = neg(rec(sqrt(1.0-sqr(x._value)))); return FirstDifferential<X>( acos_val, d_acos_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Atan, const FirstDifferential<X>& x) {
+        X atan_val = atan(x._value); X d_atan_val = rec(1+sqr(x._value)); return FirstDifferential<X>( atan_val, d_atan_val*x._gradient ); }
+
+};
+
+
+
+
+
+
+
+
+
+/*! \brief A class representing the derivatives of a vector quantity depending on multiple arguments. */
+template<class X>
+class Vector< FirstDifferential<X> >
+    : public VectorExpression< Vector<FirstDifferential<X> > >
+{
+    //BOOST_CONCEPT_ASSERT((DifferentialVectorConcept<DifferentialVector<X> >));
+    FixedDifferentialCharacteristics<X> _chars;
+    Array< FirstDifferential<X> > _ary;
+  public:
+    // The type of the class
+    typedef Vector< FirstDifferential<X> > SelfType;
+    // The type used for accessing elements
+    typedef SizeType IndexType;
+    // The value stored in the vector.
+    typedef FirstDifferential<X> ValueType;
+    // The type used for scalars.
+    typedef X ScalarType;
+
+    Vector(SizeType rs, SizeType as) : _chars(as), _ary(rs, FirstDifferential<X>(as)) { }
+    Vector(SizeType rs, const FirstDifferential<X>& d) : _chars(d),  _ary(rs,d) {
+        for(SizeType i=0; i!=rs; ++i) { (*this)[i]=d; } }
+    Vector(SizeType rs, const FirstDifferential<X>* p) : _chars(p[0]), _ary(rs,FirstDifferential<X>(p[0].argument_size())) {
+        for(SizeType i=0; i!=rs; ++i) { (*this)[i]=p[i]; } }
+    Vector(const Array<FirstDifferential<X>>& ary) : _chars(ary[0]), _ary(ary) { }
+    template<class E> Vector(const VectorExpression<E>& ve);
+    template<class E> Vector< FirstDifferential<X> >& operator=(const VectorExpression<E>& ve);
+
+    SizeType result_size() const { return this->size(); }
+    SizeType argument_size() const { return this->_chars.argument_size(); }
+    DegreeType degree() const { return 1u; }
+
+    SizeType size() const { return this->_ary.size(); }
+    const FirstDifferential<X>& get(SizeType i) const { return _ary[i]; }
+    FirstDifferential<X>& at(SizeType i) { return _ary[i]; }
+    Void set(SizeType i, const FirstDifferential<X>& d) const { _ary[i]=d; }
+    const FirstDifferential<X>& operator[](SizeType i) const { return _ary[i]; }
+    FirstDifferential<X>& operator[](SizeType i) { return _ary[i]; }
+    const FirstDifferential<X> zero_element() const {
+        return FirstDifferential(this->argument_size(),_chars.zero_coefficient()); }
+    const Array<FirstDifferential<X>>& array() const { return _ary; }
+
+    VectorRange<const Vector<FirstDifferential<X>>> operator[](Range rng) const { return project(*this,rng); }
+
+    Vector<X> value() const {
+        Vector<X> r(this->result_size());
+        for(SizeType i=0; i!=r.size(); ++i) { r[i]=(*this)[i].value(); } return r; }
+    Matrix<X> jacobian() const { Matrix<X> r(this->result_size(),this->argument_size(),this->_chars.zero_coefficient());
+        for(SizeType i=0; i!=r.row_size(); ++i) { for(SizeType j=0; j!=r.column_size(); ++j) { r[i][j]=(*this)[i][j]; } } return r; }
+
+    friend Vector<X> value(Vector<FirstDifferential<X>> const& x) { return x.value(); }
+    friend Matrix<X> jacobian(Vector<FirstDifferential<X>> const& x) { return x.jacobian(); }
+
+};
+
+
+
+
+
+//! \ingroup DifferentiationModule
+//! \brief A class representing the partial derivatives of a scalar quantity
+//! depending on multiple arguments.
+//!
+//! Based on a power series Expansion, centred on the point at which the partial derivatives are
+//! being evaluated.
+//!
+//! \invariant The expansion is sorted using graded_sort(). In particular, the
+//! total degree of the terms is increasing, and the linear terms appear in coordinate order.
+template<class X>
+class SecondDifferential
+    : public DispatchTranscendentalAlgebraOperations<SecondDifferential<X>,X>
+    , public DispatchLatticeAlgebraOperations<SecondDifferential<X>,X>
+    , public ProvideConcreteGenericArithmeticOperations<SecondDifferential<X>>
+{
+  public:
+    X _value;
+    Covector<X> _gradient;
+    Matrix<X> _half_hessian;
+  public:
+    //! \brief The type of used to represent numbers in the coefficient.
+    typedef typename X::NumericType NumericType;
+    //! \brief The type of used to represent the coefficients.
+    typedef X ValueType;
+
+    //! \brief Constructs the zero second differential in \a as variables, with elements constructed from parameters \a prs.
+    template<class... PRS> requires Constructible<X,Nat,PRS...> explicit SecondDifferential(SizeType as, PRS... prs) : SecondDifferential<X>(as,X(0u,prs...)) { }
+
+    //! \brief Constructs a constant second differential in \a as variables with value \a c.
+    explicit SecondDifferential(SizeType as, const X& c) : _value(c), _gradient(as,nul(c)), _half_hessian(as,as,nul(c)) { }
+
+    //! \brief Constructs a second differential in \a as variables with value \a v and gradient \a g.
+    explicit SecondDifferential(const X& v, const Covector<X>& g) : _value(v), _gradient(g), _half_hessian(g.size(),g.size(),nul(v)) { }
+
+    //! \brief Constructs a differential with degree zero in \a as variables with value \a v, gradient \a g and hessian \a h.
+    //explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& h) : _value(v), _gradient(g), _half_hessian(h/2) {
+    //    ARIADNE_ASSERT_MSG(h.row_size()==g.size() && h.column_size()==g.size(), "SecondDifferential(v,g,h): v="<<v<<", g="<<g<<", h="<<h); }
+//    explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& half_h) : _value(v), _gradient(g), _half_hessian(half_h) {
+//        ARIADNE_ASSERT_MSG(half_h.row_size()==g.size() && half_h.column_size()==g.size(), "SecondDifferential(v,g,half_h): v="<<v<<", g="<<g<<", half_h="<<half_h); }
+
+    //! \brief Conversion constructor from a different numerical type.
+    template<class XX> SecondDifferential(const SecondDifferential<XX>& x)
+        : _value(x._value), _gradient(x._gradient), _half_hessian(x._half_hessian) { }
+
+    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
+    SecondDifferential<X>& operator=(const X& c) {
+        X z=c; z=0; _value=c; for(SizeType j=0; j!=this->argument_size(); ++j) { _gradient[j]=z;
+            for(SizeType k=0; k!=this->argument_size(); ++k) { _half_hessian[j][k]=z; } } return *this; }
+    template<AssignableTo<X> W>
+        SecondDifferential<X>& operator=(const W& c) { X xc=nul(this->value()); xc=c; return (*this)=xc; }
+
+    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
+    static SecondDifferential<X> constant(SizeType as, const X& c) {
+        SecondDifferential<X> r(as,c.precision()); r._value=c; return r; }
+    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
+    static SecondDifferential<X> variable(SizeType as, const X& v, SizeType j) {
+        SecondDifferential<X> r(as,v.precision()); r._value=v; r._gradient[j]=1; return r; }
+    //! \brief \brief A vector of differentials of degree \a deg in \a as arguments with values \f$c_i+x_i\f$.
+    static Vector< SecondDifferential<X> > variables(const Vector<X>& x) {
+        Vector< SecondDifferential<X> > result(x.size(),SecondDifferential<X>(x.size(),x.zero_element()));
+        for(SizeType j=0; j!=x.size(); ++j) { result[j]._value=x[j]; result[j]._gradient[j]=1; }
+        return result; }
+
+    //! \brief Equality operator.
+    EqualityType<X> operator==(const SecondDifferential<X>& other) const {
+        return this->_value==other._value && this->_gradient==other._gradient  && this->_half_hessian==other._half_hessian; }
+
+    //! \brief Inequality operator.
+    InequalityType<X> operator!=(const SecondDifferential<X>& other) const {
+        return !(*this==other); }
+
+    //! \brief The number of independent variables.
+    SizeType argument_size() const { return this->_gradient.size(); }
+    //! \brief The maximum degree of the stored terms.
+    DegreeType degree() const { return 2u; }
+    //! \brief A zero with the precision argument of the numbers.
+    X zero_coefficient() const { X z=this->_value; z=0; return z; }
+        //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
+    const X& value() const { return this->_value; }
+    //! \brief The vector of coefficients of \f$x_j\f$.
+    const Covector<X>& gradient() const { return this->_gradient; }
+    //! \brief The vector of coefficients of \f$x_j\f$.
+    const X& gradient(SizeType j) const { return this->_gradient[j]; }
+    //! \brief The Hessian matrix.
+    Matrix<X> hessian() const { return this->_half_hessian*2; }
+
+
+    //! \brief A reference to the coefficient of \f$x_j\f$.
+    X& operator[](const SizeType& j) { return this->_gradient[j]; }
+    //! \brief The coefficient of \f$x_j\f$.
+    const X& operator[](const SizeType& j) const { return this->_gradient[j]; }
+    //! \brief The coefficient of \f$x^a\f$ i.e. \f$\prod x_j^{a_j}\f$.
+    const X& operator[](const MultiIndex& a) const {
+        ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
+        if(a.degree()==0) {
+            return this->_value;
+        } else if(a.degree()==1) {
+            for(SizeType j=0; j!=this->argument_size(); ++j) { if(a[j]==1) { return this->_gradient[j]; } }
+        } else if(a.degree()==2) {
+            SizeType j1=0; while (a[j1]==0) { ++j1; }
+            SizeType j2=j1; if (a[j2]==1) { ++j2; while (a[j2]==0) { ++j2; } }
+            return this->_half_hessian[j1][j2];
+        } else {
+            ARIADNE_ASSERT_MSG(a.degree()<=2," d="<<*this<<", a="<<a);
+        }
+    }
+
+    //! \brief Set the coefficient of the constant term to \a c.
+    Void set_value(const X& c) { this->_value=c; }
+
+    //! \brief Set all coefficients to zero.
+    Void clear() { *this=0; }
+
+    friend SecondDifferential<X> compose(UnivariateSecondDifferential<X> const& df, SecondDifferential<X> dg) {
+        return _compose(df,dg); }
+    friend OutputStream& operator<<(OutputStream& os, SecondDifferential<X> df) {
+        return df._write(os); }
+
+  private: public:
+    explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& hh) : _value(v), _gradient(g), _half_hessian(hh) {
+        ARIADNE_ASSERT(hh.row_size()==g.size() && hh.column_size()==g.size()); }
+    explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& hh, SeriesTag) : _value(v), _gradient(g), _half_hessian(hh) {
+        ARIADNE_ASSERT(hh.row_size()==g.size() && hh.column_size()==g.size()); }
+
+    static SecondDifferential<X> _compose(UnivariateSecondDifferential<X> const&, SecondDifferential<X>);
+    OutputStream& _write(OutputStream&) const;
+};
+
+template<class X> SecondDifferential<X> SecondDifferential<X>::_compose(UnivariateSecondDifferential<X> const& x, SecondDifferential<X> y) {
+    //d/dxi(f(g(x)) = f'(g(x)) dg(x)/dxi
+    //d2/dxi2(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxi + f'(g(x)) d2g(x)/dxi2
+    //d2/dxidxi(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxj + f'(g(x)) d2g(x)/dxidxj
+    y._half_hessian *= x.gradient();
+    y._half_hessian += x.half_hessian()*outer(y._gradient);
+    y._gradient *= x.gradient();
+    y._value = x._value;
+    return y;
+}
+
+template<class X> OutputStream& SecondDifferential<X>::_write(OutputStream& os) const {
+    SecondDifferential<X> const& x = *this;
+    os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{";
+    os << x._value;
+    for(SizeType j=0; j!=x.argument_size(); ++j) {
+        os << (j==0?"; ":",") << j << ":" << x[j];
+    }
+    for(SizeType j=0; j!=x.argument_size(); ++j) {
+        for(SizeType k=0; k!=x.argument_size(); ++k) {
+            os << (j==0&&k==0?"; ":",") << j << "," << k << ":" << x._half_hessian[j][k];
+        }
+    }
+    return os << " }";
+}
+
+
+template<class X> struct AlgebraOperations<SecondDifferential<X>,X> {
+
+    static SecondDifferential<X> apply(Pos, const SecondDifferential<X>& x) {
+        return SecondDifferential<X>(+x._value,+x._gradient,+x._half_hessian); }
+    static SecondDifferential<X> apply(Neg, const SecondDifferential<X>& x) {
+        return SecondDifferential<X>(-x._value,-x._gradient,-x._half_hessian); }
+
+    static SecondDifferential<X> apply(Add, SecondDifferential<X> x, const SecondDifferential<X>& y) {
+        x._value += y._value; x._gradient += y._gradient; x._half_hessian += y._half_hessian; return x; }
+    static SecondDifferential<X> apply(Sub, SecondDifferential<X> x, const SecondDifferential<X>& y) {
+        x._value -= y._value; x._gradient -= y._gradient; x._half_hessian -= y._half_hessian; return x; }
+    static SecondDifferential<X> apply(Mul, SecondDifferential<X> x, const SecondDifferential<X>& y) {
+        x._half_hessian *= y._value;
+        x._half_hessian += x._value * y._half_hessian;
+        for(SizeType j=0; j!=x.argument_size(); ++j) { for(SizeType k=0; k!=x.argument_size(); ++k) {
+            x._half_hessian[j][k]+=(x._gradient[j]*y._gradient[k]+x._gradient[k]*y._gradient[j])/2; } }
+        x._gradient *= y._value;
+        x._gradient += x._value * y._gradient;
+        x._value *= y._value;
+        return x;
+    }
+    static SecondDifferential<X> apply(Div, const SecondDifferential<X>& x, SecondDifferential<X> y) {
+        return mul(x,rec(std::move(y))); }
+
+    static SecondDifferential<X> apply(Add, SecondDifferential<X> x, const X& c) {
+        x._value+=c; return x; }
+    static SecondDifferential<X> apply(Sub, SecondDifferential<X> x, const X& c) {
+        x._value-=c; return x; }
+    static SecondDifferential<X> apply(Mul, SecondDifferential<X> x, const X& c) {
+        x._value*=c; x._gradient*=c; x._half_hessian*=c; return x; }
+    static SecondDifferential<X> apply(Div, SecondDifferential<X> x, const X& c) {
+        x._value/=c; x._gradient/=c; x._half_hessian/=c; return x; }
+
+    static SecondDifferential<X> apply(Min, const SecondDifferential<X>& x1, const SecondDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
+        if(x1.value()==x2.value()) {
+            ARIADNE_THROW(std::runtime_error,"min(SecondDifferential<X> x1, SecondDifferential<X> x2)","x1[0]==x2[0]");
+        }
+        return x1.value()<x2.value() ? x1 : x2;
+    }
+    static SecondDifferential<X> apply(Max, const SecondDifferential<X>& x1,const SecondDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
+        if(x1.value()==x2.value()) {
+            ARIADNE_THROW(std::runtime_error,"max(SecondDifferential<X> x1, SecondDifferential<X> x2)","x1[0]==x2[0]");
+        }
+        return x1.value()>x2.value() ? x1 : x2;
+    }
+    static SecondDifferential<X> apply(Abs, const SecondDifferential<X>& x) {
+        if(x.value()==0) {
+            ARIADNE_THROW(std::runtime_error,"abs(SecondDifferential<X> x)","x[0]==0");
+        }
+        return x.value()>0 ? pos(x) : neg(x);
+    }
+
+    template<class OP> static SecondDifferential<X> apply(OP op, const SecondDifferential<X>& x) {
+        return compose(UnivariateSecondDifferential<X>(op,x.value(),x)); }
+
+    static SecondDifferential<X> apply(Rec, const SecondDifferential<X>& x) {
+        X rec_val = rec(x._value);
+        X neg_sqr_rec_val = neg(sqr(rec_val));
+        X cub_rec_val = -rec_val*neg_sqr_rec_val;
+        return SecondDifferential<X>( rec_val, neg_sqr_rec_val*x._gradient, neg_sqr_rec_val*x._half_hessian + cub_rec_val * outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Sqr, const SecondDifferential<X>& x) {
+        return SecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + outer(x._gradient)/2 );
+    }
+
+    static SecondDifferential<X> apply(Pow, const SecondDifferential<X>& x, Int n) {
+        return SecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, n*(n-1)/2*pow(x._value,n-2)*x._half_hessian, SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Sqrt, const SecondDifferential<X>& x) {
+        X sqrt_val = sqrt(x._value);
+        X rec_dbl_sqrt_val = rec(2*sqrt_val);
+        X neg_rec_quad_pow_val = neg(rec(4*sqrt_val*x._value));
+        return SecondDifferential<X>( sqrt_val, rec_dbl_sqrt_val*x._gradient, rec_dbl_sqrt_val*x._half_hessian + neg_rec_quad_pow_val * outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Exp, const SecondDifferential<X>& x) {
+        X exp_val = exp(x._value);
+        return SecondDifferential<X>( exp_val, exp_val*x._gradient, exp_val*x._half_hessian+exp_val*outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Log, const SecondDifferential<X>& x) {
+        X log_val = log(x._value);
+        X rec_val = rec(x._value);
+        X neg_sqr_rec_val = neg(sqr(rec_val));
+        return SecondDifferential<X>( log_val, rec_val*x._gradient, rec_val*x._half_hessian+neg_sqr_rec_val*outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Sin, const SecondDifferential<X>& x) {
+        X sin_val = sin(x._value);
+        X cos_val = cos(x._value);
+        X neg_sin_val = neg(sin_val);
+        return SecondDifferential<X>( sin_val, cos_val*x._gradient, cos_val*x._half_hessian+neg_sin_val*outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Cos, const SecondDifferential<X>& x) {
+        X cos_val = cos(x._value);
+        X neg_sin_val = neg(sin(x._value));
+        X neg_cos_val = neg(cos_val);
+        return SecondDifferential<X>( cos_val, neg_sin_val*x._gradient, neg_sin_val*x._half_hessian+neg_cos_val*outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Tan, const SecondDifferential<X>& x) {
+        X tan_val = tan(x._value);
+        X sqr_sec_val = sqr(rec(cos(x._value)));
+        X dbl_tan_sqr_sec_val = 2*tan_val*sqr_sec_val;
+        return SecondDifferential<X>( tan_val, sqr_sec_val*x._gradient, sqr_sec_val*x._half_hessian+dbl_tan_sqr_sec_val*outer(x._gradient), SeriesTag() );
+    }
+
+};
+
+
+
+
+
+
+
+
+
+/*! \brief A class representing the derivatives of a vector quantity depending on multiple arguments. */
+template<class X>
+class Vector< SecondDifferential<X> >
+    : public VectorExpression< Vector<SecondDifferential<X> > >
+{
+    //BOOST_CONCEPT_ASSERT((DifferentialVectorConcept<DifferentialVector<X> >));
+    FixedDifferentialCharacteristics<X> _chars;
+    Array< SecondDifferential<X> > _ary;
+  public:
+    // The type of the class
+    typedef Vector< SecondDifferential<X> > SelfType;
+    // The type used for accessing elements
+    typedef SizeType IndexType;
+    // The value stored in the vector.
+    typedef SecondDifferential<X> ValueType;
+    // The type used for scalars.
+    typedef X ScalarType;
+
+    template<class... PRS> requires Constructible<X,Nat,PRS...> Vector(SizeType rs, SizeType as, PRS... prs)
+        : _chars(as,prs...), _ary(rs, SecondDifferential<X>(as,prs...)) { }
+    Vector(SizeType rs, const SecondDifferential<X>& d) : _chars(d), _ary(rs,d) { }
+    Vector(SizeType rs, const SecondDifferential<X>* p) : _chars(p[0]), _ary(rs,p) { }
+    Vector(const Array<SecondDifferential<X>>& ary) : _chars(ary[0]), _ary(ary) { }
+    template<class E> Vector(const VectorExpression<E>& ve);
+    template<class E> Vector< SecondDifferential<X> >& operator=(const VectorExpression<E>& ve);
+
+
+    SizeType result_size() const { return this->size(); }
+    SizeType argument_size() const { return this->_chars.argument_size(); }
+    DegreeType degree() const { return 1u; }
+    SecondDifferential<X> zero_element() const {
+        return SecondDifferential<X>(this->argument_size(),this->_chars.zero_coefficient()); }
+    const Array<SecondDifferential<X>>& array() const { return _ary; }
+
+    SizeType size() const { return this->_ary.size(); }
+    const SecondDifferential<X>& get(SizeType i) const { return _ary[i]; }
+    SecondDifferential<X>& at(SizeType i) { return _ary[i]; }
+    Void set(SizeType i, const SecondDifferential<X>& d) const { _ary[i]=d; }
+    const SecondDifferential<X>& operator[](SizeType i) const { return _ary[i]; }
+    SecondDifferential<X>& operator[](SizeType i) { return _ary[i]; }
+
+    VectorRange<const Vector<SecondDifferential<X>>> operator[](Range rng) const { return project(*this,rng); }
+
+    Vector<X> value() const {
+        Vector<X> r(this->result_size());
+        for(SizeType i=0; i!=r.size(); ++i) { r[i]=(*this)[i].value(); } return r; }
+    Matrix<X> jacobian() const { Matrix<X> r(this->result_size(),this->argument_size(),this->_chars.zero_coefficient());
+        for(SizeType i=0; i!=r.row_size(); ++i) { for(SizeType j=0; j!=r.column_size(); ++j) { r[i][j]=(*this)[i].gradient(j); } } return r; }
+
+    friend Vector<X> value(const Vector<SecondDifferential<X>>& x) { return x.value(); }
+    friend Matrix<X> jacobian(const Vector<SecondDifferential<X>>& x) { return x.jacobian(); }
+};
+
+
+template<class X> inline FixedDifferentialCharacteristics<X>::FixedDifferentialCharacteristics(FirstDifferential<X> const& dx)
+    : _argument_size(dx.argument_size()), _zero_coefficient(dx.zero_coefficient())
+{ }
+
+template<class X> inline FixedDifferentialCharacteristics<X>::FixedDifferentialCharacteristics(SecondDifferential<X> const& dx)
+    : _argument_size(dx.argument_size()), _zero_coefficient(dx.zero_coefficient())
+{ }
+
+
+template<class X> class FixedDifferentialFactory {
+    typedef PrecisionType<X> PR;
+    PR _pr;
+  public:
+    FixedDifferentialFactory(PR const& pr) : _pr(pr) { }
+    template<class Y> requires Constructible<X,Y,PR> X create(Y const& y) { return X(y,_pr); }
+    template<class Y> FirstDifferential<X> create(FirstDifferential<Y> const&);
+    template<class Y> SecondDifferential<X> create(SecondDifferential<Y> const&);
+};
+template<class X> inline FixedDifferentialFactory<X> differential_factory(X const& x) {
+    return FixedDifferentialFactory<X>(x.precision()); }
+template<class X> inline FixedDifferentialFactory<X> factory(FirstDifferential<X> const& dx) {
+    return FixedDifferentialFactory<X>(dx.value().precision()); }
+template<class X> inline FixedDifferentialFactory<X> factory(SecondDifferential<X> const& dx) {
+    return FixedDifferentialFactory<X>(dx.value().precision()); }
+
+
+
+
+} //namespace Ariadne
+
+#endif // ARIADNE_FIXED_DIFFERENTIAL_HPP
-- 
2.43.0


From b36a0c80f16c42995e27dfdfeb4a5f862cf605f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:52 +0000
Subject: [PATCH 51/63] fix: second derivatives of functions of second
 differentials

---
 source/algebra/fixed_differential.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/algebra/fixed_differential.hpp b/source/algebra/fixed_differential.hpp
index e213220..5a1ab3b 100644
--- a/source/algebra/fixed_differential.hpp
+++ b/source/algebra/fixed_differential.hpp
@@ -629,51 +629,51 @@ template<class X> struct AlgebraOperations<SecondDifferential<X>,X> {
     }
 
     static SecondDifferential<X> apply(Sqr, const SecondDifferential<X>& x) {
-        return SecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + outer(x._gradient)/2 );
+        return SecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Pow, const SecondDifferential<X>& x, Int n) {
-        return SecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, n*(n-1)/2*pow(x._value,n-2)*x._half_hessian, SeriesTag() );
+        return SecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, (n*pow(x._value,n-1))*x._half_hessian + hlf(n*(n-1)*pow(x._value,n-2)) * outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Sqrt, const SecondDifferential<X>& x) {
         X sqrt_val = sqrt(x._value);
         X rec_dbl_sqrt_val = rec(2*sqrt_val);
         X neg_rec_quad_pow_val = neg(rec(4*sqrt_val*x._value));
-        return SecondDifferential<X>( sqrt_val, rec_dbl_sqrt_val*x._gradient, rec_dbl_sqrt_val*x._half_hessian + neg_rec_quad_pow_val * outer(x._gradient), SeriesTag() );
+        return SecondDifferential<X>( sqrt_val, rec_dbl_sqrt_val*x._gradient, rec_dbl_sqrt_val*x._half_hessian + hlf(neg_rec_quad_pow_val) * outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Exp, const SecondDifferential<X>& x) {
         X exp_val = exp(x._value);
-        return SecondDifferential<X>( exp_val, exp_val*x._gradient, exp_val*x._half_hessian+exp_val*outer(x._gradient), SeriesTag() );
+        return SecondDifferential<X>( exp_val, exp_val*x._gradient, exp_val*x._half_hessian+hlf(exp_val)*outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Log, const SecondDifferential<X>& x) {
         X log_val = log(x._value);
         X rec_val = rec(x._value);
         X neg_sqr_rec_val = neg(sqr(rec_val));
-        return SecondDifferential<X>( log_val, rec_val*x._gradient, rec_val*x._half_hessian+neg_sqr_rec_val*outer(x._gradient), SeriesTag() );
+        return SecondDifferential<X>( log_val, rec_val*x._gradient, rec_val*x._half_hessian+hlf(neg_sqr_rec_val)*outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Sin, const SecondDifferential<X>& x) {
         X sin_val = sin(x._value);
         X cos_val = cos(x._value);
         X neg_sin_val = neg(sin_val);
-        return SecondDifferential<X>( sin_val, cos_val*x._gradient, cos_val*x._half_hessian+neg_sin_val*outer(x._gradient), SeriesTag() );
+        return SecondDifferential<X>( sin_val, cos_val*x._gradient, cos_val*x._half_hessian+hlf(neg_sin_val)*outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Cos, const SecondDifferential<X>& x) {
         X cos_val = cos(x._value);
         X neg_sin_val = neg(sin(x._value));
         X neg_cos_val = neg(cos_val);
-        return SecondDifferential<X>( cos_val, neg_sin_val*x._gradient, neg_sin_val*x._half_hessian+neg_cos_val*outer(x._gradient), SeriesTag() );
+        return SecondDifferential<X>( cos_val, neg_sin_val*x._gradient, neg_sin_val*x._half_hessian+hlf(neg_cos_val)*outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Tan, const SecondDifferential<X>& x) {
         X tan_val = tan(x._value);
         X sqr_sec_val = sqr(rec(cos(x._value)));
         X dbl_tan_sqr_sec_val = 2*tan_val*sqr_sec_val;
-        return SecondDifferential<X>( tan_val, sqr_sec_val*x._gradient, sqr_sec_val*x._half_hessian+dbl_tan_sqr_sec_val*outer(x._gradient), SeriesTag() );
+        return SecondDifferential<X>( tan_val, sqr_sec_val*x._gradient, sqr_sec_val*x._half_hessian+hlf(dbl_tan_sqr_sec_val)*outer(x._gradient), SeriesTag() );
     }
 
 };
-- 
2.43.0


From bf667f32efb49c781e8f302d2b9eb92f2bc18284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:52 +0000
Subject: [PATCH 52/63] fix: second derivative of sqr and pow of univariate
 second differentials

---
 .../algebra/fixed_univariate_differential.hpp | 878 +++++++++---------
 1 file changed, 439 insertions(+), 439 deletions(-)

diff --git a/source/algebra/fixed_univariate_differential.hpp b/source/algebra/fixed_univariate_differential.hpp
index a6e9448..c7c1eab 100644
--- a/source/algebra/fixed_univariate_differential.hpp
+++ b/source/algebra/fixed_univariate_differential.hpp
@@ -1,439 +1,439 @@
-/***************************************************************************
- *            algebra/fixed_univariate_differential.hpp
- *
- *  Copyright  2013-20  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-/*! \file algebra/fixed_univariate_differential.hpp
- *  \brief First- and second-order univariate differentials.
- */
-
-#ifndef ARIADNE_FIXED_UNIVARIATE_DIFFERENTIAL_HPP
-#define ARIADNE_FIXED_UNIVARIATE_DIFFERENTIAL_HPP
-
-#include "utility/macros.hpp"
-
-namespace Ariadne {
-
-template<class X> class DifferentialFactory;
-
-//! \ingroup DifferentiationModule
-//! \brief A class representing the value and derivative of a scalar quantity
-//! depending on a single argument.
-template<class X>
-class UnivariateFirstDifferential
-    : public DispatchTranscendentalAlgebraOperations<UnivariateFirstDifferential<X>,X>
-    , public DispatchLatticeAlgebraOperations<UnivariateFirstDifferential<X>,X>
-    , public ProvideConcreteGenericArithmeticOperations<UnivariateFirstDifferential<X>>
-{
-  public:
-    X _value;
-    X _gradient;
-  public:
-    //! \brief The type of used to represent numbers in the coefficient.
-    typedef typename X::NumericType NumericType;
-    //! \brief The type of used to represent the coefficients.
-    typedef X ValueType;
-
-    template<class... PRS> requires Constructible<X,Nat,PRS...>
-    explicit UnivariateFirstDifferential(PRS... prs) : _value(X(0u,prs...)), _gradient(_value) { }
-
-    //! \brief Constructs a first differential with constant value \a c.
-    explicit UnivariateFirstDifferential(const X& c) : _value(c), _gradient(nul(c)) { }
-
-    //! \brief Constructs a first differential with value \a v and gradient \a g.
-    explicit UnivariateFirstDifferential(const X& v, const X& g) : _value(v), _gradient(g) { }
-
-    //! \brief Conversion constructor from a different numerical type.
-    template<class XX> UnivariateFirstDifferential(const UnivariateFirstDifferential<XX>& x)
-        : _value(x._value), _gradient(x._gradient) { }
-
-    //! \brief Construct from  a power series.
-    UnivariateFirstDifferential(const Series<X>& x)
-        : _value(x[0]), _gradient(x[1]) { }
-
-    template<class OP> UnivariateFirstDifferential(OP op, X const& c)
-        : _value(op(c)), _gradient(next_series_coefficient(op,1u,c,&_value)) { }
-
-    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
-    UnivariateFirstDifferential<X>& operator=(const X& c) { _value=c; _gradient=nul(c); return *this; }
-
-    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
-    static UnivariateFirstDifferential<X> constant(const X& c) {
-        UnivariateFirstDifferential<X> r(c); return r; }
-    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
-    static UnivariateFirstDifferential<X> variable(const X& v) {
-        UnivariateFirstDifferential<X> r(v); r._gradient=1; return r; }
-
-    UnivariateFirstDifferential<X> create_zero() const {
-        return UnivariateFirstDifferential(nul(this->_value)); }
-
-    //! \brief Equality operator.
-    EqualityType<X> operator==(const UnivariateFirstDifferential<X>& other) const {
-        return this->_value==other._value && this->_gradient==other._gradient; }
-
-    //! \brief Inequality operator.
-    InequalityType<X> operator!=(const UnivariateFirstDifferential<X>& other) const {
-        return !(*this==other); }
-
-    //! \brief The number of independent variables.
-    SizeType argument_size() const { return 1u; }
-    //! \brief The maximum degree of the stored terms.
-    DegreeType degree() const { return 1u; }
-    //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
-    const X& value() const { return this->_value; }
-    //! \brief The first derivative.
-    const X& gradient() const { return this->_gradient; }
-
-    //! \brief Set the coefficient of the constant term to \a c.
-    Void set_value(const X& c) { this->_value=c; }
-
-    //! \brief Set all coefficients to zero.
-    Void clear() { this->_value=0; this->_gradient=0; }
-  public:
-    friend DifferentialFactory<X> factory(UnivariateFirstDifferential<X> const& dx) {
-        return DifferentialFactory<X>(dx.value().precision()); }
-    friend OutputStream& operator<<(OutputStream& os, const UnivariateFirstDifferential<X>& x) {
-        os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{ ";
-        os << x._value << "; " << x._gradient;
-        return os << " }";
-    }
-  public:
-    friend decltype(auto) operator>=(const UnivariateFirstDifferential<X>& x, const UnivariateFirstDifferential<X>& y) {
-        return x._value>=y._value; }
-    friend decltype(auto) operator<=(const UnivariateFirstDifferential<X>& x, const UnivariateFirstDifferential<X>& y) {
-        return x._value<=y._value; }
-    friend decltype(auto) operator>=(const UnivariateFirstDifferential<X>& x, const X& c) {
-        return x._value>=c; }
-    friend decltype(auto) operator<=(const UnivariateFirstDifferential<X>& x, const X& c) {
-        return x._value<=c; }
-    friend decltype(auto) operator> (const UnivariateFirstDifferential<X>& x, const X& c) {
-        return x._value> c; }
-    friend decltype(auto) operator< (const UnivariateFirstDifferential<X>& x, const X& c) {
-        return x._value< c; }
-    friend decltype(auto) operator>=(const X& c, const UnivariateFirstDifferential<X>& x) {
-        return c>=x._value; }
-    friend decltype(auto) operator<=(const X& c, const UnivariateFirstDifferential<X>& x) {
-        return c<=x._value; }
-    friend decltype(auto) operator< (const X& c, const UnivariateFirstDifferential<X>& x) {
-        return c< x._value; }
-    friend decltype(auto) operator> (const X& c, const UnivariateFirstDifferential<X>& x) {
-        return c> x._value; }
-};
-
-template<class X> UnivariateFirstDifferential<X> create_zero(const UnivariateFirstDifferential<X>& c) {
-    return UnivariateFirstDifferential<X>(create_zero(c.value())); }
-
-template<class X> struct AlgebraOperations<UnivariateFirstDifferential<X>,X> {
-    static UnivariateFirstDifferential<X> apply(Add, UnivariateFirstDifferential<X> x, const X& c) {
-        x._value+=c; return x; }
-    static UnivariateFirstDifferential<X> apply(Sub, UnivariateFirstDifferential<X> x, const X& c) {
-        x._value-=c; return x; }
-    static UnivariateFirstDifferential<X> apply(Mul, UnivariateFirstDifferential<X> x, const X& c) {
-        x._value*=c; x._gradient*=c; return x; }
-    static UnivariateFirstDifferential<X> apply(Div, UnivariateFirstDifferential<X> x, const X& c) {
-        x._value/=c; x._gradient/=c; return x; }
-
-    static UnivariateFirstDifferential<X> apply(Add, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
-        x._value += y._value; x._gradient += y._gradient; return x; }
-    static UnivariateFirstDifferential<X> apply(Sub, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
-        x._value -= y._value; x._gradient -= y._gradient; return x; }
-    static UnivariateFirstDifferential<X> apply(Mul, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
-        x._gradient *= y._value; x._gradient += x._value * y._gradient; x._value *= y._value; return x; }
-    static UnivariateFirstDifferential<X> apply(Div, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
-        x._value /= y._value; x._gradient -= x._value * y._gradient; x._gradient /= y._value; return x; }
-
-    static UnivariateFirstDifferential<X> apply(Pos, const UnivariateFirstDifferential<X>& x) {
-        return UnivariateFirstDifferential<X>(+x._value,+x._gradient); }
-    static UnivariateFirstDifferential<X> apply(Neg, const UnivariateFirstDifferential<X>& x) {
-        return UnivariateFirstDifferential<X>(-x._value,-x._gradient); }
-
-    static UnivariateFirstDifferential<X> apply(Min, const UnivariateFirstDifferential<X>& x1, const UnivariateFirstDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
-            ARIADNE_THROW(std::runtime_error,"min(UnivariateFirstDifferential<X> x1, UnivariateFirstDifferential<X> x2)","x1[0]==x2[0]"); }
-        return x1.value()<x2.value() ? x1 : x2; }
-    static UnivariateFirstDifferential<X> apply(Max, const UnivariateFirstDifferential<X>& x1,const UnivariateFirstDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
-            ARIADNE_THROW(std::runtime_error,"max(UnivariateFirstDifferential<X> x1, UnivariateFirstDifferential<X> x2)","x1[0]==x2[0]"); }
-        return x1.value()>x2.value() ? x1 : x2; }
-    static UnivariateFirstDifferential<X> apply(Abs, const UnivariateFirstDifferential<X>& x) {
-        if(x.value()==0) {
-            ARIADNE_THROW(std::runtime_error,"abs(UnivariateFirstDifferential<X> x)","x[0]==0"); }
-        return x.value()>0 ? pos(x) : neg(x); }
-
-    static UnivariateFirstDifferential<X> apply(Pow, const UnivariateFirstDifferential<X>& x, Int n) {
-        return UnivariateFirstDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient ); }
-
-    template<class OP> static UnivariateFirstDifferential<X> apply(OP op, const UnivariateFirstDifferential<X>& x) {
-        return compose(UnivariateFirstDifferential<X>(op,x.value()),x); }
-
-    static UnivariateFirstDifferential<X> apply(Sqrt, const UnivariateFirstDifferential<X>& x) {
-        X sqrt_val = sqrt(x._value); return UnivariateFirstDifferential<X>( sqrt_val, rec(2*sqrt_val)*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Exp, const UnivariateFirstDifferential<X>& x) {
-        X exp_val = exp(x._value); return UnivariateFirstDifferential<X>( exp_val, exp_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Log, const UnivariateFirstDifferential<X>& x) {
-        X log_val = log(x._value); X rec_val = rec(x._value); return UnivariateFirstDifferential<X>( log_val, rec_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Sin, const UnivariateFirstDifferential<X>& x) {
-        X sin_val = sin(x._value); X cos_val = cos(x._value); return UnivariateFirstDifferential<X>( sin_val, cos_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Cos, const UnivariateFirstDifferential<X>& x) {
-        X cos_val = cos(x._value); X neg_sin_val = neg(sin(x._value)); return UnivariateFirstDifferential<X>( cos_val, neg_sin_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Tan, const UnivariateFirstDifferential<X>& x) {
-        X tan_val = tan(x._value); X sqr_sec_val = sqr(rec(cos(x._value))); return UnivariateFirstDifferential<X>( tan_val, sqr_sec_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Asin, const UnivariateFirstDifferential<X>& x) {
-        X asin_val = asin(x._value); X d_asin_val = rec(sqrt(1.0-sqr(x._value))); return UnivariateFirstDifferential<X>( asin_val, d_asin_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Acos, const UnivariateFirstDifferential<X>& x) {
-        X acos_val = acos(x._value); X d_acos_val = neg(rec(sqrt(1.0-sqr(x._value)))); return UnivariateFirstDifferential<X>( acos_val, d_acos_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Atan, const UnivariateFirstDifferential<X>& x) {
-        X atan_val = atan(x._value); X d_atan_val = rec(1+sqr(x._value)); return UnivariateFirstDifferential<X>( atan_val, d_atan_val*x._gradient ); }
-};
-
-
-
-
-
-
-
-
-
-
-//! \ingroup DifferentiationModule
-//! \brief A class representing the value, first and second derivatives of a scalar quantity
-//! depending on a single argument.
-template<class X>
-class UnivariateSecondDifferential
-    : public DispatchTranscendentalAlgebraOperations<UnivariateSecondDifferential<X>,X>
-    , public DispatchLatticeAlgebraOperations<UnivariateSecondDifferential<X>,X>
-    , public ProvideConcreteGenericArithmeticOperations<UnivariateSecondDifferential<X>>
-{
-  public:
-    X _value;
-    X _gradient;
-    X _half_hessian;
-  public:
-    //! \brief The type of used to represent numbers in the coefficient.
-    typedef typename X::NumericType NumericType;
-    //! \brief The type of used to represent the coefficients.
-    typedef X ValueType;
-
-    template<class... PRS> requires Constructible<X,Nat,PRS...>
-    explicit UnivariateSecondDifferential(PRS... prs) : _value(X(0u,prs...)), _gradient(_value), _half_hessian(_value) { }
-
-    //! \brief Constructs a constant differential with value \a c.
-    explicit UnivariateSecondDifferential(const X& c) : _value(c), _gradient(nul(c)), _half_hessian(nul(c)) { }
-
-    //! \brief Constructs a second differential with value \a v, derivative \a g and second derivative \a 0.
-    explicit UnivariateSecondDifferential(const X& v, const X& g) : _value(v), _gradient(g), _half_hessian(nul(v)) { }
-
-    //! \brief Constructs a second differential with value \a v, derivative \a g and second derivative \a h.
-//    explicit UnivariateSecondDifferential(const X& v, const X& g, const X& h) : _value(v), _gradient(g), _half_hessian(h) { }
-
-    //! \brief Construct from  a power series.
-    UnivariateSecondDifferential(const Series<X>& x)
-        : _value(x[0]), _gradient(x[1]), _half_hessian(x[2]) { }
-
-    template<class OP> UnivariateSecondDifferential(OP op, X const& c)
-        : _value(op(c)), _gradient(next_series_coefficient(op,1u,c,&_value)), _half_hessian(next_series_coefficient(op,2u,c,&_value)) { }
-
-    //! \brief Conversion constructor from a different numerical type.
-    template<class XX> UnivariateSecondDifferential(const UnivariateSecondDifferential<XX>& x)
-        : _value(x._value), _gradient(x._gradient), _half_hessian(x._half_hessian) { }
-
-    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
-    UnivariateSecondDifferential<X>& operator=(const X& c) {
-        _value=c; _gradient=nul(c); _half_hessian=nul(c); return *this; }
-    template<AssignableTo<X> W>
-        UnivariateSecondDifferential<X>& operator=(const W& c) { X xc=nul(this->value()); xc=c; return (*this)=xc; }
-
-    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
-    static UnivariateSecondDifferential<X> constant(const X& c) {
-        UnivariateSecondDifferential<X> r(c); return r; }
-    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
-    static UnivariateSecondDifferential<X> variable(const X& v) {
-        UnivariateSecondDifferential<X> r(v); r._gradient=1; return r; }
-
-    UnivariateSecondDifferential<X> create_zero() const {
-        return UnivariateSecondDifferential(nul(this->_value)); }
-
-        //! \brief Equality operator.
-    EqualityType<X> operator==(const UnivariateSecondDifferential<X>& other) const {
-        return this->_value==other._value && this->_gradient==other._gradient  && this->_half_hessian==other._half_hessian; }
-
-    //! \brief Inequality operator.
-    InequalityType<X> operator!=(const UnivariateSecondDifferential<X>& other) const {
-        return !(*this==other); }
-
-    //! \brief The number of independent variables.
-    SizeType argument_size() const { return 1u; }
-    //! \brief The maximum degree of the stored terms.
-    DegreeType degree() const { return 2u; }
-    //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
-    const X& value() const { return this->_value; }
-    //! \brief The first derivative.
-    const X& gradient() const { return this->_gradient; }
-    //! \brief The second derivative.
-    const X hessian() const { return this->_half_hessian*2; }
-    //! \brief Half the second derivative; equal to the coefficient of the polynomial with the same derivatives.
-    const X& half_hessian() const { return this->_half_hessian; }
-
-
-    //! \brief Set the coefficient of the constant term to \a c.
-    Void set_value(const X& c) { this->_value=c; }
-
-    //! \brief Set all coefficients to zero.
-    Void clear() { (*this)=nul(this->_value); }
-  public:
-    friend DifferentialFactory<X> factory(UnivariateSecondDifferential<X> const& dx) {
-        return DifferentialFactory<X>(dx.value().precision()); }
-
-    friend UnivariateSecondDifferential<X> compose(UnivariateSecondDifferential<X> const& df, UnivariateSecondDifferential<X> dg) {
-        dg._half_hessian *= df._gradient;
-        dg._half_hessian += df._half_hessian * sqr(dg._gradient);
-        dg._gradient *= df._gradient;
-        dg._value = df._value;
-        return dg;
-    }
-    friend OutputStream& operator<<(OutputStream& os, const UnivariateSecondDifferential<X>& x)  {
-        os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{";
-        os << x._value << ";" << x._gradient << ";" << x._half_hessian;
-        return os << " }";
-    }
-  public:
-    typedef Number<Paradigm<X>> Y;
-    friend UnivariateSecondDifferential<X> max(const UnivariateSecondDifferential<X>& x1, const Y& c2) { ARIADNE_NOT_IMPLEMENTED; }
-    friend UnivariateSecondDifferential<X> min(const UnivariateSecondDifferential<X>& x1, const Y& c2) { ARIADNE_NOT_IMPLEMENTED; }
-    friend UnivariateSecondDifferential<X> max(const Y& c1, const UnivariateSecondDifferential<X>& x2) { ARIADNE_NOT_IMPLEMENTED; }
-    friend UnivariateSecondDifferential<X> min(const Y& c1, const UnivariateSecondDifferential<X>& x2) { ARIADNE_NOT_IMPLEMENTED; }
-
-    friend decltype(auto) operator>=(const UnivariateSecondDifferential<X>& x, const UnivariateSecondDifferential<X>& y) {
-        return x._value>=y._value; }
-    friend decltype(auto) operator<=(const UnivariateSecondDifferential<X>& x, const UnivariateSecondDifferential<X>& y) {
-        return x._value<=y._value; }
-    friend decltype(auto) operator>=(const UnivariateSecondDifferential<X>& x, const X& c) { return x._value>=c; }
-    friend decltype(auto) operator<=(const UnivariateSecondDifferential<X>& x, const X& c) { return x._value<=c; }
-    friend decltype(auto) operator> (const UnivariateSecondDifferential<X>& x, const X& c) { return x._value> c; }
-    friend decltype(auto) operator< (const UnivariateSecondDifferential<X>& x, const X& c) { return x._value< c; }
-    friend decltype(auto) operator>=(const X& c, const UnivariateSecondDifferential<X>& x) { return c>=x._value; }
-    friend decltype(auto) operator<=(const X& c, const UnivariateSecondDifferential<X>& x) { return c<=x._value; }
-    friend decltype(auto) operator> (const X& c, const UnivariateSecondDifferential<X>& x) { return c> x._value; }
-    friend decltype(auto) operator< (const X& c, const UnivariateSecondDifferential<X>& x) { return c< x._value; }
-  public:
-    explicit UnivariateSecondDifferential(const X& v, const X& g, const X& half_h) : _value(v), _gradient(g), _half_hessian(half_h) { }
-};
-
-template<class X> struct AlgebraOperations<UnivariateSecondDifferential<X>,X> {
-    static UnivariateSecondDifferential<X> apply(Add, UnivariateSecondDifferential<X> x, const X& c) {
-        x._value+=c; return x; }
-    static UnivariateSecondDifferential<X> apply(Sub, UnivariateSecondDifferential<X> x, const X& c) {
-        x._value-=c; return x; }
-    static UnivariateSecondDifferential<X> apply(Mul, UnivariateSecondDifferential<X> x, const X& c) {
-        x._value*=c; x._gradient*=c; x._half_hessian*=c; return x; }
-    static UnivariateSecondDifferential<X> apply(Div, UnivariateSecondDifferential<X> x, const X& c) {
-        x._value/=c; x._gradient/=c; x._half_hessian/=c; return x; }
-
-    static UnivariateSecondDifferential<X> apply(Add, UnivariateSecondDifferential<X> x, const UnivariateSecondDifferential<X>& y) {
-        x._value += y._value; x._gradient += y._gradient; x._half_hessian += y._half_hessian; return x; }
-
-    static UnivariateSecondDifferential<X> apply(Sub, UnivariateSecondDifferential<X> x, const UnivariateSecondDifferential<X>& y) {
-        x._value -= y._value; x._gradient -= y._gradient; x._half_hessian -= y._half_hessian; return x; }
-
-    static UnivariateSecondDifferential<X> apply(Mul, UnivariateSecondDifferential<X> x, const UnivariateSecondDifferential<X>& y) {
-        x._half_hessian *= y._value; x._half_hessian += x._gradient*y._gradient; x._half_hessian += x._value * y._half_hessian; x._gradient *= y._value; x._gradient += x._value * y._gradient; x._value *= y._value; return x; }
-    static UnivariateSecondDifferential<X> apply(Div, const UnivariateSecondDifferential<X>& x, const UnivariateSecondDifferential<X>& y) {
-        return UnivariateSecondDifferential<X>(x._value/y._value,(x._gradient-(x._value/y._value)*y._gradient)/y._value,
-                                            (x._half_hessian/y._value)-(x._value/y._value)*(y._half_hessian/y._value)
-                                                -(x._gradient/y._value)*(y._gradient/y._value)+(x._value/y._value)*sqr(y._gradient/y._value)); }
-
-    static UnivariateSecondDifferential<X> apply(Pos, const UnivariateSecondDifferential<X>& x) {
-        return UnivariateSecondDifferential<X>(+x._value,+x._gradient,+x._half_hessian); }
-    static UnivariateSecondDifferential<X> apply(Neg, const UnivariateSecondDifferential<X>& x) {
-        return UnivariateSecondDifferential<X>(-x._value,-x._gradient,-x._half_hessian); }
-
-    static UnivariateSecondDifferential<X> apply(Min, const UnivariateSecondDifferential<X>& x1, const UnivariateSecondDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(decide(x1.value()==x2.value())) {
-            ARIADNE_THROW(std::runtime_error,"min(UnivariateSecondDifferential<X> x1, UnivariateSecondDifferential<X> x2)","x1[0]==x2[0]"); }
-        return decide(x1.value()<x2.value()) ? x1 : x2; }
-    static UnivariateSecondDifferential<X> apply(Max, const UnivariateSecondDifferential<X>& x1,const UnivariateSecondDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(decide(x1.value()==x2.value())) {
-            ARIADNE_THROW(std::runtime_error,"max(UnivariateSecondDifferential<X> x1, UnivariateSecondDifferential<X> x2)","x1[0]==x2[0]"); }
-        return decide(x1.value()>x2.value()) ? x1 : x2; }
-    static UnivariateSecondDifferential<X> apply(Abs, const UnivariateSecondDifferential<X>& x) {
-        if(decide(x.value()==0)) {
-            ARIADNE_THROW(std::runtime_error,"abs(UnivariateSecondDifferential<X> x)","x[0]==0"); }
-        return decide(x.value()>0) ? pos(x) : neg(x); }
-
-    static UnivariateSecondDifferential<X> apply(Rec, const UnivariateSecondDifferential<X>& x) {
-        X rec_val = rec(x._value); X neg_sqr_rec_val = neg(sqr(rec_val)); X cub_rec_val = -rec_val*neg_sqr_rec_val;
-        return UnivariateSecondDifferential<X>( rec_val, neg_sqr_rec_val*x._gradient, neg_sqr_rec_val*x._half_hessian + cub_rec_val * sqr(x._gradient) ); }
-
-    template<class OP> static UnivariateSecondDifferential<X> apply(OP op, const UnivariateSecondDifferential<X>& x) {
-        return compose(UnivariateSecondDifferential<X>(op,x.value()),x); }
-
-    static UnivariateSecondDifferential<X> apply(Sqr, const UnivariateSecondDifferential<X>& x) {
-        return UnivariateSecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (x._value)*x._half_hessian + sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Pow, const UnivariateSecondDifferential<X>& x, Int n) {
-        return UnivariateSecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, hlf(n*(n-1)*pow(x._value,n-2))*x._half_hessian ); }
-
-    //ddf(y)/dxdx = d/dx ( f'(y) dy/dx) = f''(y) dy/dx dy/dx + f'(y) ddy/dxdx
-
-    static UnivariateSecondDifferential<X> apply(Sqrt, const UnivariateSecondDifferential<X>& x) {
-        X sqrt_val = sqrt(x._value); X rec_dbl_sqrt_val = rec(2*sqrt_val); X neg_rec_quad_pow_val = neg(rec(4*sqrt_val*x._value));
-        return UnivariateSecondDifferential<X>( sqrt_val, rec_dbl_sqrt_val*x._gradient, rec_dbl_sqrt_val*x._half_hessian + hlf(neg_rec_quad_pow_val) * sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Exp, const UnivariateSecondDifferential<X>& x) {
-        X exp_val = exp(x._value); return UnivariateSecondDifferential<X>( exp_val, exp_val*x._gradient, exp_val*x._half_hessian+hlf(exp_val)*sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Log, const UnivariateSecondDifferential<X>& x) {
-        X log_val = log(x._value); X rec_val = rec(x._value); X neg_sqr_rec_val = neg(sqr(rec_val));
-        return UnivariateSecondDifferential<X>( log_val, rec_val*x._gradient, rec_val*x._half_hessian+hlf(neg_sqr_rec_val)*sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Sin, const UnivariateSecondDifferential<X>& x) {
-        X sin_val = sin(x._value); X cos_val = cos(x._value); X neg_sin_val = neg(sin_val);
-        return UnivariateSecondDifferential<X>( sin_val, cos_val*x._gradient, cos_val*x._half_hessian+hlf(neg_sin_val)*sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Cos, const UnivariateSecondDifferential<X>& x) {
-        X cos_val = cos(x._value); X neg_sin_val = neg(sin(x._value)); X neg_cos_val = neg(cos_val);
-        return UnivariateSecondDifferential<X>( cos_val, neg_sin_val*x._gradient, neg_sin_val*x._half_hessian+hlf(neg_cos_val)*sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Tan, const UnivariateSecondDifferential<X>& x) {
-        X tan_val = tan(x._value); X sqr_sec_val = sqr(rec(cos(x._value))); X dbl_tan_sqr_sec_val = 2*tan_val*sqr_sec_val;
-        return UnivariateSecondDifferential<X>( tan_val, sqr_sec_val*x._gradient, sqr_sec_val*x._half_hessian+hlf(dbl_tan_sqr_sec_val)*sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Atan, const UnivariateSecondDifferential<X>& x) {
-        X atan_val = atan(x._value); X atan_deriv = rec(1+sqr(x._value)); X atan_second_deriv = -2*x._value*sqr(atan_deriv);
-        return UnivariateSecondDifferential<X>( atan_val, atan_deriv*x._gradient, atan_deriv*x._half_hessian+hlf(atan_second_deriv)*sqr(x._gradient) ); }
-};
-
-
-
-
-
-} //namespace Ariadne
-
-#endif // ARIADNE_FIXED_UNIVARIATE_DIFFERENTIAL_HPP
+/***************************************************************************
+ *            algebra/fixed_univariate_differential.hpp
+ *
+ *  Copyright  2013-20  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+/*! \file algebra/fixed_univariate_differential.hpp
+ *  \brief First- and second-order univariate differentials.
+ */
+
+#ifndef ARIADNE_FIXED_UNIVARIATE_DIFFERENTIAL_HPP
+#define ARIADNE_FIXED_UNIVARIATE_DIFFERENTIAL_HPP
+
+#include "utility/macros.hpp"
+
+namespace Ariadne {
+
+template<class X> class DifferentialFactory;
+
+//! \ingroup DifferentiationModule
+//! \brief A class representing the value and derivative of a scalar quantity
+//! depending on a single argument.
+template<class X>
+class UnivariateFirstDifferential
+    : public DispatchTranscendentalAlgebraOperations<UnivariateFirstDifferential<X>,X>
+    , public DispatchLatticeAlgebraOperations<UnivariateFirstDifferential<X>,X>
+    , public ProvideConcreteGenericArithmeticOperations<UnivariateFirstDifferential<X>>
+{
+  public:
+    X _value;
+    X _gradient;
+  public:
+    //! \brief The type of used to represent numbers in the coefficient.
+    typedef typename X::NumericType NumericType;
+    //! \brief The type of used to represent the coefficients.
+    typedef X ValueType;
+
+    template<class... PRS> requires Constructible<X,Nat,PRS...>
+    explicit UnivariateFirstDifferential(PRS... prs) : _value(X(0u,prs...)), _gradient(_value) { }
+
+    //! \brief Constructs a first differential with constant value \a c.
+    explicit UnivariateFirstDifferential(const X& c) : _value(c), _gradient(nul(c)) { }
+
+    //! \brief Constructs a first differential with value \a v and gradient \a g.
+    explicit UnivariateFirstDifferential(const X& v, const X& g) : _value(v), _gradient(g) { }
+
+    //! \brief Conversion constructor from a different numerical type.
+    template<class XX> UnivariateFirstDifferential(const UnivariateFirstDifferential<XX>& x)
+        : _value(x._value), _gradient(x._gradient) { }
+
+    //! \brief Construct from  a power series.
+    UnivariateFirstDifferential(const Series<X>& x)
+        : _value(x[0]), _gradient(x[1]) { }
+
+    template<class OP> UnivariateFirstDifferential(OP op, X const& c)
+        : _value(op(c)), _gradient(next_series_coefficient(op,1u,c,&_value)) { }
+
+    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
+    UnivariateFirstDifferential<X>& operator=(const X& c) { _value=c; _gradient=nul(c); return *this; }
+
+    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
+    static UnivariateFirstDifferential<X> constant(const X& c) {
+        UnivariateFirstDifferential<X> r(c); return r; }
+    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
+    static UnivariateFirstDifferential<X> variable(const X& v) {
+        UnivariateFirstDifferential<X> r(v); r._gradient=1; return r; }
+
+    UnivariateFirstDifferential<X> create_zero() const {
+        return UnivariateFirstDifferential(nul(this->_value)); }
+
+    //! \brief Equality operator.
+    EqualityType<X> operator==(const UnivariateFirstDifferential<X>& other) const {
+        return this->_value==other._value && this->_gradient==other._gradient; }
+
+    //! \brief Inequality operator.
+    InequalityType<X> operator!=(const UnivariateFirstDifferential<X>& other) const {
+        return !(*this==other); }
+
+    //! \brief The number of independent variables.
+    SizeType argument_size() const { return 1u; }
+    //! \brief The maximum degree of the stored terms.
+    DegreeType degree() const { return 1u; }
+    //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
+    const X& value() const { return this->_value; }
+    //! \brief The first derivative.
+    const X& gradient() const { return this->_gradient; }
+
+    //! \brief Set the coefficient of the constant term to \a c.
+    Void set_value(const X& c) { this->_value=c; }
+
+    //! \brief Set all coefficients to zero.
+    Void clear() { this->_value=0; this->_gradient=0; }
+  public:
+    friend DifferentialFactory<X> factory(UnivariateFirstDifferential<X> const& dx) {
+        return DifferentialFactory<X>(dx.value().precision()); }
+    friend OutputStream& operator<<(OutputStream& os, const UnivariateFirstDifferential<X>& x) {
+        os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{ ";
+        os << x._value << "; " << x._gradient;
+        return os << " }";
+    }
+  public:
+    friend decltype(auto) operator>=(const UnivariateFirstDifferential<X>& x, const UnivariateFirstDifferential<X>& y) {
+        return x._value>=y._value; }
+    friend decltype(auto) operator<=(const UnivariateFirstDifferential<X>& x, const UnivariateFirstDifferential<X>& y) {
+        return x._value<=y._value; }
+    friend decltype(auto) operator>=(const UnivariateFirstDifferential<X>& x, const X& c) {
+        return x._value>=c; }
+    friend decltype(auto) operator<=(const UnivariateFirstDifferential<X>& x, const X& c) {
+        return x._value<=c; }
+    friend decltype(auto) operator> (const UnivariateFirstDifferential<X>& x, const X& c) {
+        return x._value> c; }
+    friend decltype(auto) operator< (const UnivariateFirstDifferential<X>& x, const X& c) {
+        return x._value< c; }
+    friend decltype(auto) operator>=(const X& c, const UnivariateFirstDifferential<X>& x) {
+        return c>=x._value; }
+    friend decltype(auto) operator<=(const X& c, const UnivariateFirstDifferential<X>& x) {
+        return c<=x._value; }
+    friend decltype(auto) operator< (const X& c, const UnivariateFirstDifferential<X>& x) {
+        return c< x._value; }
+    friend decltype(auto) operator> (const X& c, const UnivariateFirstDifferential<X>& x) {
+        return c> x._value; }
+};
+
+template<class X> UnivariateFirstDifferential<X> create_zero(const UnivariateFirstDifferential<X>& c) {
+    return UnivariateFirstDifferential<X>(create_zero(c.value())); }
+
+template<class X> struct AlgebraOperations<UnivariateFirstDifferential<X>,X> {
+    static UnivariateFirstDifferential<X> apply(Add, UnivariateFirstDifferential<X> x, const X& c) {
+        x._value+=c; return x; }
+    static UnivariateFirstDifferential<X> apply(Sub, UnivariateFirstDifferential<X> x, const X& c) {
+        x._value-=c; return x; }
+    static UnivariateFirstDifferential<X> apply(Mul, UnivariateFirstDifferential<X> x, const X& c) {
+        x._value*=c; x._gradient*=c; return x; }
+    static UnivariateFirstDifferential<X> apply(Div, UnivariateFirstDifferential<X> x, const X& c) {
+        x._value/=c; x._gradient/=c; return x; }
+
+    static UnivariateFirstDifferential<X> apply(Add, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
+        x._value += y._value; x._gradient += y._gradient; return x; }
+    static UnivariateFirstDifferential<X> apply(Sub, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
+        x._value -= y._value; x._gradient -= y._gradient; return x; }
+    static UnivariateFirstDifferential<X> apply(Mul, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
+        x._gradient *= y._value; x._gradient += x._value * y._gradient; x._value *= y._value; return x; }
+    static UnivariateFirstDifferential<X> apply(Div, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
+        x._value /= y._value; x._gradient -= x._value * y._gradient; x._gradient /= y._value; return x; }
+
+    static UnivariateFirstDifferential<X> apply(Pos, const UnivariateFirstDifferential<X>& x) {
+        return UnivariateFirstDifferential<X>(+x._value,+x._gradient); }
+    static UnivariateFirstDifferential<X> apply(Neg, const UnivariateFirstDifferential<X>& x) {
+        return UnivariateFirstDifferential<X>(-x._value,-x._gradient); }
+
+    static UnivariateFirstDifferential<X> apply(Min, const UnivariateFirstDifferential<X>& x1, const UnivariateFirstDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
+            ARIADNE_THROW(std::runtime_error,"min(UnivariateFirstDifferential<X> x1, UnivariateFirstDifferential<X> x2)","x1[0]==x2[0]"); }
+        return x1.value()<x2.value() ? x1 : x2; }
+    static UnivariateFirstDifferential<X> apply(Max, const UnivariateFirstDifferential<X>& x1,const UnivariateFirstDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
+            ARIADNE_THROW(std::runtime_error,"max(UnivariateFirstDifferential<X> x1, UnivariateFirstDifferential<X> x2)","x1[0]==x2[0]"); }
+        return x1.value()>x2.value() ? x1 : x2; }
+    static UnivariateFirstDifferential<X> apply(Abs, const UnivariateFirstDifferential<X>& x) {
+        if(x.value()==0) {
+            ARIADNE_THROW(std::runtime_error,"abs(UnivariateFirstDifferential<X> x)","x[0]==0"); }
+        return x.value()>0 ? pos(x) : neg(x); }
+
+    static UnivariateFirstDifferential<X> apply(Pow, const UnivariateFirstDifferential<X>& x, Int n) {
+        return UnivariateFirstDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient ); }
+
+    template<class OP> static UnivariateFirstDifferential<X> apply(OP op, const UnivariateFirstDifferential<X>& x) {
+        return compose(UnivariateFirstDifferential<X>(op,x.value()),x); }
+
+    static UnivariateFirstDifferential<X> apply(Sqrt, const UnivariateFirstDifferential<X>& x) {
+        X sqrt_val = sqrt(x._value); return UnivariateFirstDifferential<X>( sqrt_val, rec(2*sqrt_val)*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Exp, const UnivariateFirstDifferential<X>& x) {
+        X exp_val = exp(x._value); return UnivariateFirstDifferential<X>( exp_val, exp_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Log, const UnivariateFirstDifferential<X>& x) {
+        X log_val = log(x._value); X rec_val = rec(x._value); return UnivariateFirstDifferential<X>( log_val, rec_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Sin, const UnivariateFirstDifferential<X>& x) {
+        X sin_val = sin(x._value); X cos_val = cos(x._value); return UnivariateFirstDifferential<X>( sin_val, cos_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Cos, const UnivariateFirstDifferential<X>& x) {
+        X cos_val = cos(x._value); X neg_sin_val = neg(sin(x._value)); return UnivariateFirstDifferential<X>( cos_val, neg_sin_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Tan, const UnivariateFirstDifferential<X>& x) {
+        X tan_val = tan(x._value); X sqr_sec_val = sqr(rec(cos(x._value))); return UnivariateFirstDifferential<X>( tan_val, sqr_sec_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Asin, const UnivariateFirstDifferential<X>& x) {
+        X asin_val = asin(x._value); X d_asin_val = rec(sqrt(1.0-sqr(x._value))); return UnivariateFirstDifferential<X>( asin_val, d_asin_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Acos, const UnivariateFirstDifferential<X>& x) {
+        X acos_val = acos(x._value); X d_acos_val = neg(rec(sqrt(1.0-sqr(x._value)))); return UnivariateFirstDifferential<X>( acos_val, d_acos_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Atan, const UnivariateFirstDifferential<X>& x) {
+        X atan_val = atan(x._value); X d_atan_val = rec(1+sqr(x._value)); return UnivariateFirstDifferential<X>( atan_val, d_atan_val*x._gradient ); }
+};
+
+
+
+
+
+
+
+
+
+
+//! \ingroup DifferentiationModule
+//! \brief A class representing the value, first and second derivatives of a scalar quantity
+//! depending on a single argument.
+template<class X>
+class UnivariateSecondDifferential
+    : public DispatchTranscendentalAlgebraOperations<UnivariateSecondDifferential<X>,X>
+    , public DispatchLatticeAlgebraOperations<UnivariateSecondDifferential<X>,X>
+    , public ProvideConcreteGenericArithmeticOperations<UnivariateSecondDifferential<X>>
+{
+  public:
+    X _value;
+    X _gradient;
+    X _half_hessian;
+  public:
+    //! \brief The type of used to represent numbers in the coefficient.
+    typedef typename X::NumericType NumericType;
+    //! \brief The type of used to represent the coefficients.
+    typedef X ValueType;
+
+    template<class... PRS> requires Constructible<X,Nat,PRS...>
+    explicit UnivariateSecondDifferential(PRS... prs) : _value(X(0u,prs...)), _gradient(_value), _half_hessian(_value) { }
+
+    //! \brief Constructs a constant differential with value \a c.
+    explicit UnivariateSecondDifferential(const X& c) : _value(c), _gradient(nul(c)), _half_hessian(nul(c)) { }
+
+    //! \brief Constructs a second differential with value \a v, derivative \a g and second derivative \a 0.
+    explicit UnivariateSecondDifferential(const X& v, const X& g) : _value(v), _gradient(g), _half_hessian(nul(v)) { }
+
+    //! \brief Constructs a second differential with value \a v, derivative \a g and second derivative \a h.
+//    explicit UnivariateSecondDifferential(const X& v, const X& g, const X& h) : _value(v), _gradient(g), _half_hessian(h) { }
+
+    //! \brief Construct from  a power series.
+    UnivariateSecondDifferential(const Series<X>& x)
+        : _value(x[0]), _gradient(x[1]), _half_hessian(x[2]) { }
+
+    template<class OP> UnivariateSecondDifferential(OP op, X const& c)
+        : _value(op(c)), _gradient(next_series_coefficient(op,1u,c,&_value)), _half_hessian(next_series_coefficient(op,2u,c,&_value)) { }
+
+    //! \brief Conversion constructor from a different numerical type.
+    template<class XX> UnivariateSecondDifferential(const UnivariateSecondDifferential<XX>& x)
+        : _value(x._value), _gradient(x._gradient), _half_hessian(x._half_hessian) { }
+
+    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
+    UnivariateSecondDifferential<X>& operator=(const X& c) {
+        _value=c; _gradient=nul(c); _half_hessian=nul(c); return *this; }
+    template<AssignableTo<X> W>
+        UnivariateSecondDifferential<X>& operator=(const W& c) { X xc=nul(this->value()); xc=c; return (*this)=xc; }
+
+    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
+    static UnivariateSecondDifferential<X> constant(const X& c) {
+        UnivariateSecondDifferential<X> r(c); return r; }
+    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
+    static UnivariateSecondDifferential<X> variable(const X& v) {
+        UnivariateSecondDifferential<X> r(v); r._gradient=1; return r; }
+
+    UnivariateSecondDifferential<X> create_zero() const {
+        return UnivariateSecondDifferential(nul(this->_value)); }
+
+        //! \brief Equality operator.
+    EqualityType<X> operator==(const UnivariateSecondDifferential<X>& other) const {
+        return this->_value==other._value && this->_gradient==other._gradient  && this->_half_hessian==other._half_hessian; }
+
+    //! \brief Inequality operator.
+    InequalityType<X> operator!=(const UnivariateSecondDifferential<X>& other) const {
+        return !(*this==other); }
+
+    //! \brief The number of independent variables.
+    SizeType argument_size() const { return 1u; }
+    //! \brief The maximum degree of the stored terms.
+    DegreeType degree() const { return 2u; }
+    //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
+    const X& value() const { return this->_value; }
+    //! \brief The first derivative.
+    const X& gradient() const { return this->_gradient; }
+    //! \brief The second derivative.
+    const X hessian() const { return this->_half_hessian*2; }
+    //! \brief Half the second derivative; equal to the coefficient of the polynomial with the same derivatives.
+    const X& half_hessian() const { return this->_half_hessian; }
+
+
+    //! \brief Set the coefficient of the constant term to \a c.
+    Void set_value(const X& c) { this->_value=c; }
+
+    //! \brief Set all coefficients to zero.
+    Void clear() { (*this)=nul(this->_value); }
+  public:
+    friend DifferentialFactory<X> factory(UnivariateSecondDifferential<X> const& dx) {
+        return DifferentialFactory<X>(dx.value().precision()); }
+
+    friend UnivariateSecondDifferential<X> compose(UnivariateSecondDifferential<X> const& df, UnivariateSecondDifferential<X> dg) {
+        dg._half_hessian *= df._gradient;
+        dg._half_hessian += df._half_hessian * sqr(dg._gradient);
+        dg._gradient *= df._gradient;
+        dg._value = df._value;
+        return dg;
+    }
+    friend OutputStream& operator<<(OutputStream& os, const UnivariateSecondDifferential<X>& x)  {
+        os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{";
+        os << x._value << ";" << x._gradient << ";" << x._half_hessian;
+        return os << " }";
+    }
+  public:
+    typedef Number<Paradigm<X>> Y;
+    friend UnivariateSecondDifferential<X> max(const UnivariateSecondDifferential<X>& x1, const Y& c2) { ARIADNE_NOT_IMPLEMENTED; }
+    friend UnivariateSecondDifferential<X> min(const UnivariateSecondDifferential<X>& x1, const Y& c2) { ARIADNE_NOT_IMPLEMENTED; }
+    friend UnivariateSecondDifferential<X> max(const Y& c1, const UnivariateSecondDifferential<X>& x2) { ARIADNE_NOT_IMPLEMENTED; }
+    friend UnivariateSecondDifferential<X> min(const Y& c1, const UnivariateSecondDifferential<X>& x2) { ARIADNE_NOT_IMPLEMENTED; }
+
+    friend decltype(auto) operator>=(const UnivariateSecondDifferential<X>& x, const UnivariateSecondDifferential<X>& y) {
+        return x._value>=y._value; }
+    friend decltype(auto) operator<=(const UnivariateSecondDifferential<X>& x, const UnivariateSecondDifferential<X>& y) {
+        return x._value<=y._value; }
+    friend decltype(auto) operator>=(const UnivariateSecondDifferential<X>& x, const X& c) { return x._value>=c; }
+    friend decltype(auto) operator<=(const UnivariateSecondDifferential<X>& x, const X& c) { return x._value<=c; }
+    friend decltype(auto) operator> (const UnivariateSecondDifferential<X>& x, const X& c) { return x._value> c; }
+    friend decltype(auto) operator< (const UnivariateSecondDifferential<X>& x, const X& c) { return x._value< c; }
+    friend decltype(auto) operator>=(const X& c, const UnivariateSecondDifferential<X>& x) { return c>=x._value; }
+    friend decltype(auto) operator<=(const X& c, const UnivariateSecondDifferential<X>& x) { return c<=x._value; }
+    friend decltype(auto) operator> (const X& c, const UnivariateSecondDifferential<X>& x) { return c> x._value; }
+    friend decltype(auto) operator< (const X& c, const UnivariateSecondDifferential<X>& x) { return c< x._value; }
+  public:
+    explicit UnivariateSecondDifferential(const X& v, const X& g, const X& half_h) : _value(v), _gradient(g), _half_hessian(half_h) { }
+};
+
+template<class X> struct AlgebraOperations<UnivariateSecondDifferential<X>,X> {
+    static UnivariateSecondDifferential<X> apply(Add, UnivariateSecondDifferential<X> x, const X& c) {
+        x._value+=c; return x; }
+    static UnivariateSecondDifferential<X> apply(Sub, UnivariateSecondDifferential<X> x, const X& c) {
+        x._value-=c; return x; }
+    static UnivariateSecondDifferential<X> apply(Mul, UnivariateSecondDifferential<X> x, const X& c) {
+        x._value*=c; x._gradient*=c; x._half_hessian*=c; return x; }
+    static UnivariateSecondDifferential<X> apply(Div, UnivariateSecondDifferential<X> x, const X& c) {
+        x._value/=c; x._gradient/=c; x._half_hessian/=c; return x; }
+
+    static UnivariateSecondDifferential<X> apply(Add, UnivariateSecondDifferential<X> x, const UnivariateSecondDifferential<X>& y) {
+        x._value += y._value; x._gradient += y._gradient; x._half_hessian += y._half_hessian; return x; }
+
+    static UnivariateSecondDifferential<X> apply(Sub, UnivariateSecondDifferential<X> x, const UnivariateSecondDifferential<X>& y) {
+        x._value -= y._value; x._gradient -= y._gradient; x._half_hessian -= y._half_hessian; return x; }
+
+    static UnivariateSecondDifferential<X> apply(Mul, UnivariateSecondDifferential<X> x, const UnivariateSecondDifferential<X>& y) {
+        x._half_hessian *= y._value; x._half_hessian += x._gradient*y._gradient; x._half_hessian += x._value * y._half_hessian; x._gradient *= y._value; x._gradient += x._value * y._gradient; x._value *= y._value; return x; }
+    static UnivariateSecondDifferential<X> apply(Div, const UnivariateSecondDifferential<X>& x, const UnivariateSecondDifferential<X>& y) {
+        return UnivariateSecondDifferential<X>(x._value/y._value,(x._gradient-(x._value/y._value)*y._gradient)/y._value,
+                                            (x._half_hessian/y._value)-(x._value/y._value)*(y._half_hessian/y._value)
+                                                -(x._gradient/y._value)*(y._gradient/y._value)+(x._value/y._value)*sqr(y._gradient/y._value)); }
+
+    static UnivariateSecondDifferential<X> apply(Pos, const UnivariateSecondDifferential<X>& x) {
+        return UnivariateSecondDifferential<X>(+x._value,+x._gradient,+x._half_hessian); }
+    static UnivariateSecondDifferential<X> apply(Neg, const UnivariateSecondDifferential<X>& x) {
+        return UnivariateSecondDifferential<X>(-x._value,-x._gradient,-x._half_hessian); }
+
+    static UnivariateSecondDifferential<X> apply(Min, const UnivariateSecondDifferential<X>& x1, const UnivariateSecondDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(decide(x1.value()==x2.value())) {
+            ARIADNE_THROW(std::runtime_error,"min(UnivariateSecondDifferential<X> x1, UnivariateSecondDifferential<X> x2)","x1[0]==x2[0]"); }
+        return decide(x1.value()<x2.value()) ? x1 : x2; }
+    static UnivariateSecondDifferential<X> apply(Max, const UnivariateSecondDifferential<X>& x1,const UnivariateSecondDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(decide(x1.value()==x2.value())) {
+            ARIADNE_THROW(std::runtime_error,"max(UnivariateSecondDifferential<X> x1, UnivariateSecondDifferential<X> x2)","x1[0]==x2[0]"); }
+        return decide(x1.value()>x2.value()) ? x1 : x2; }
+    static UnivariateSecondDifferential<X> apply(Abs, const UnivariateSecondDifferential<X>& x) {
+        if(decide(x.value()==0)) {
+            ARIADNE_THROW(std::runtime_error,"abs(UnivariateSecondDifferential<X> x)","x[0]==0"); }
+        return decide(x.value()>0) ? pos(x) : neg(x); }
+
+    static UnivariateSecondDifferential<X> apply(Rec, const UnivariateSecondDifferential<X>& x) {
+        X rec_val = rec(x._value); X neg_sqr_rec_val = neg(sqr(rec_val)); X cub_rec_val = -rec_val*neg_sqr_rec_val;
+        return UnivariateSecondDifferential<X>( rec_val, neg_sqr_rec_val*x._gradient, neg_sqr_rec_val*x._half_hessian + cub_rec_val * sqr(x._gradient) ); }
+
+    template<class OP> static UnivariateSecondDifferential<X> apply(OP op, const UnivariateSecondDifferential<X>& x) {
+        return compose(UnivariateSecondDifferential<X>(op,x.value()),x); }
+
+    static UnivariateSecondDifferential<X> apply(Sqr, const UnivariateSecondDifferential<X>& x) {
+        return UnivariateSecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Pow, const UnivariateSecondDifferential<X>& x, Int n) {
+        return UnivariateSecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, (n*pow(x._value,n-1))*x._half_hessian + hlf(n*(n-1)*pow(x._value,n-2))*sqr(x._gradient) ); }
+
+    //ddf(y)/dxdx = d/dx ( f'(y) dy/dx) = f''(y) dy/dx dy/dx + f'(y) ddy/dxdx
+
+    static UnivariateSecondDifferential<X> apply(Sqrt, const UnivariateSecondDifferential<X>& x) {
+        X sqrt_val = sqrt(x._value); X rec_dbl_sqrt_val = rec(2*sqrt_val); X neg_rec_quad_pow_val = neg(rec(4*sqrt_val*x._value));
+        return UnivariateSecondDifferential<X>( sqrt_val, rec_dbl_sqrt_val*x._gradient, rec_dbl_sqrt_val*x._half_hessian + hlf(neg_rec_quad_pow_val) * sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Exp, const UnivariateSecondDifferential<X>& x) {
+        X exp_val = exp(x._value); return UnivariateSecondDifferential<X>( exp_val, exp_val*x._gradient, exp_val*x._half_hessian+hlf(exp_val)*sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Log, const UnivariateSecondDifferential<X>& x) {
+        X log_val = log(x._value); X rec_val = rec(x._value); X neg_sqr_rec_val = neg(sqr(rec_val));
+        return UnivariateSecondDifferential<X>( log_val, rec_val*x._gradient, rec_val*x._half_hessian+hlf(neg_sqr_rec_val)*sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Sin, const UnivariateSecondDifferential<X>& x) {
+        X sin_val = sin(x._value); X cos_val = cos(x._value); X neg_sin_val = neg(sin_val);
+        return UnivariateSecondDifferential<X>( sin_val, cos_val*x._gradient, cos_val*x._half_hessian+hlf(neg_sin_val)*sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Cos, const UnivariateSecondDifferential<X>& x) {
+        X cos_val = cos(x._value); X neg_sin_val = neg(sin(x._value)); X neg_cos_val = neg(cos_val);
+        return UnivariateSecondDifferential<X>( cos_val, neg_sin_val*x._gradient, neg_sin_val*x._half_hessian+hlf(neg_cos_val)*sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Tan, const UnivariateSecondDifferential<X>& x) {
+        X tan_val = tan(x._value); X sqr_sec_val = sqr(rec(cos(x._value))); X dbl_tan_sqr_sec_val = 2*tan_val*sqr_sec_val;
+        return UnivariateSecondDifferential<X>( tan_val, sqr_sec_val*x._gradient, sqr_sec_val*x._half_hessian+hlf(dbl_tan_sqr_sec_val)*sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Atan, const UnivariateSecondDifferential<X>& x) {
+        X atan_val = atan(x._value); X atan_deriv = rec(1+sqr(x._value)); X atan_second_deriv = -2*x._value*sqr(atan_deriv);
+        return UnivariateSecondDifferential<X>( atan_val, atan_deriv*x._gradient, atan_deriv*x._half_hessian+hlf(atan_second_deriv)*sqr(x._gradient) ); }
+};
+
+
+
+
+
+} //namespace Ariadne
+
+#endif // ARIADNE_FIXED_UNIVARIATE_DIFFERENTIAL_HPP
-- 
2.43.0


From 431eebb3c42d7563ea0f47c9205f6532d07c25f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:52 +0000
Subject: [PATCH 53/63] fix: evaluation of an affine function includes its
 constant term

---
 source/function/affine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/affine.hpp b/source/function/affine.hpp
index 7c5450d..4cdde90 100644
--- a/source/function/affine.hpp
+++ b/source/function/affine.hpp
@@ -183,7 +183,7 @@ class Affine
 };
 
 template<class X> template<class Y> Y Affine<X>::evaluate(const Vector<Y>& x) const {
-    Y r=x.zero_element(); for(SizeType j=0; j!=this->_g.size(); ++j) { r+=this->_g[j]*x[j]; } return r;
+    Y r=x.zero_element(); r+=this->_c; for(SizeType j=0; j!=this->_g.size(); ++j) { r+=this->_g[j]*x[j]; } return r;
 }
 
 template<class X> OutputStream& operator<<(OutputStream& os, const Affine<X>& f) {
-- 
2.43.0


From 645d39f1b526e56cb80f39596888266067e4ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:25 +0000
Subject: [PATCH 54/63] fix: errors of adding and multiplying an enclosure to
 an affine model

---
 source/function/model_utilities.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/function/model_utilities.hpp b/source/function/model_utilities.hpp
index 4724185..8b16dcb 100644
--- a/source/function/model_utilities.hpp
+++ b/source/function/model_utilities.hpp
@@ -51,6 +51,11 @@ template<class F> inline Void acc_err(F const& ml, F const& u, F& e) {
     e=add(rounded,e,hlf(add(rounded,ml,u)));
 }
 
+// Accumulate the error of approximating a value between -ml and u by r. Assumes upward rounding.
+template<class F> inline Void acc_err(F const& ml, F const& u, F const& r, F& e) {
+    e=add(rounded,e,max(sub(rounded,u,r),add(rounded,ml,r)));
+}
+
 template<class F, class PRE> Ball<F,RawFloatType<PRE>> add(F const& x1, F const& x2, PRE pre) {
     F mx1=-x1;
     F::set_rounding_to_nearest();
@@ -98,8 +103,8 @@ template<class F> F add_err(F const& x, ValidatedApproximation<F> const& c, Erro
     F rv=add(rounded,xv,cm);
     F::set_rounding_upward();
     F u=add(rounded,xv,cu);
-    F ml=add(rounded,(-xv),cl);
-    acc_err(ml,u,re);
+    F ml=sub(rounded,(-xv),cl);
+    acc_err(ml,u,rv,re);
     return F(rv);
 }
 
@@ -185,12 +190,12 @@ template<class F> F mul_err(F const& x, ValidatedApproximation<F> const& c, Erro
         F mcl=-cl;
         F u=mul(rounded,xv,cu);
         F ml=mul(rounded,xv,mcl);
-        acc_err(ml,u,re);
+        acc_err(ml,u,rv,re);
     } else {
         F mcu=-cu;
         F u=mul(rounded,xv,cl);
         F ml=mul(rounded,xv,mcu);
-        acc_err(ml,u,re);
+        acc_err(ml,u,rv,re);
     }
     return F(rv);
 }
@@ -344,7 +349,7 @@ template<class F> F lin_err(F const& a1, F const& b1, F const& a2, F const& b2,
     F mb2=-b2;
     Rounded<F> u=cast_rounded(a1)*cast_rounded(b2)+cast_rounded(b1)*cast_rounded(a2);
     Rounded<F> ml=cast_rounded(a1)*cast_rounded(mb2)+cast_rounded(mb1)*cast_rounded(a2);
-    cast_rounded(e) += hlf(ml+u);
+    cast_rounded(e) += max(u-cast_rounded(r),ml+cast_rounded(r));
     return r;
 }
 
-- 
2.43.0


From a7889892ef799f68482e63cfb8624e3e150fcd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:25 +0000
Subject: [PATCH 55/63] fix: error of a product of affine models

---
 source/function/affine_model.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/affine_model.tpl.hpp b/source/function/affine_model.tpl.hpp
index fa87488..f1a3e83 100644
--- a/source/function/affine_model.tpl.hpp
+++ b/source/function/affine_model.tpl.hpp
@@ -188,7 +188,7 @@ template<class F> struct AlgebraOperations<AffineModel<ValidatedTag,F>> {
         }
 
         r.error() = (r.error()+a1.error()*a2.error())
-                        + ( (mag(a1.value())+norm(a1.gradient()) * a2.error()) + a1.error()*(mag(a2.value())+norm(a2.gradient())) )
+                        + ( (mag(a1.value())+norm(a1.gradient())) * a2.error() + a1.error()*(mag(a2.value())+norm(a2.gradient())) )
                         + norm(a1.gradient()) * norm(a2.gradient());
 
         return r;
-- 
2.43.0


From 191d14e313495c18413ca85842f8d81f124c775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:25 +0000
Subject: [PATCH 56/63] fix: product of approximate affine models

---
 source/function/affine_model.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/affine_model.tpl.hpp b/source/function/affine_model.tpl.hpp
index f1a3e83..64e6934 100644
--- a/source/function/affine_model.tpl.hpp
+++ b/source/function/affine_model.tpl.hpp
@@ -99,9 +99,9 @@ template<class F> struct AlgebraOperations<AffineModel<ApproximateTag,F>> {
         PrecisionType prec=max(a1.precision(),a2.precision());
 
         AffineModelType r(n,prec);
-        r=a1.value()+a2.value();
+        r=a1.value()*a2.value();
         for(SizeType i=0; i!=n; ++i) {
-            r[i]=a1.value()*a2.gradient(i)+a1.gradient(i)+a2.value();
+            r[i]=a1.value()*a2.gradient(i)+a1.gradient(i)*a2.value();
         }
         return r;
     }
-- 
2.43.0


From d798ef6d341eadcad8918ec2c78f0f7d795a7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:20 +0000
Subject: [PATCH 57/63] fix: restore the line endings of files touched by
 earlier repairs

---
 source/algebra/differential.tpl.hpp           | 1866 ++---
 source/algebra/fixed_differential.hpp         | 1546 ++--
 .../algebra/fixed_univariate_differential.hpp |  878 +--
 source/geometry/binary_tree.cpp               |  944 +--
 source/geometry/binary_tree.hpp               |  908 +--
 source/geometry/grid_paving.cpp               | 6248 ++++++++---------
 source/numeric/decimal.hpp                    |  334 +-
 source/numeric/dyadic.hpp                     |  858 +--
 8 files changed, 6791 insertions(+), 6791 deletions(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 0045012..31d5872 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -1,933 +1,933 @@
-/***************************************************************************
- *            differential.tpl.hpp
- *
- *  Copyright  2008-20  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-#include <map>
-
-#include "utility/macros.hpp"
-#include "utility/array.hpp"
-#include "numeric/float.decl.hpp"
-#include "algebra/vector.hpp"
-#include "algebra/covector.hpp"
-#include "algebra/matrix.hpp"
-#include "algebra/multi_index.hpp"
-#include "algebra/series.hpp"
-#include "algebra/expansion.hpp"
-#include "algebra/expansion.inl.hpp"
-
-namespace Ariadne {
-
-template<class X> class Vector;
-template<class X> class Matrix;
-template<class X> class Series;
-
-template<class I, class X> class Expansion;
-template<class X> class Differential;
-
-
-inline DegreeType min(DegreeType d1, DegreeType d2) { return std::min(d1,d2); }
-inline DegreeType max(DegreeType d1, DegreeType d2) { return std::max(d1,d2); }
-
-//template<class X> Differential<X>::Differential() : _expansion(0), _degree(0) { }
-
-template<class X> Differential<X>::Differential(SizeType as, DegreeType deg, X const& z) : _expansion(as,z), _degree(deg) { }
-
-template<class X> Differential<X>::Differential(const Map<MultiIndex,X>& map, DegreeType deg)
-    : _expansion(0u,(assert(!map.empty()),nul(map.begin()->second)))
-{
-    ARIADNE_NOT_IMPLEMENTED;
-}
-
-template<class X>
-Differential<X>::Differential(SizeType as, DegreeType deg,
-                              InitializerList< Pair<InitializerList<DegreeType>,X> > lst)
-    : _expansion(Expansion<MultiIndex,X>(lst)), _degree(deg)
-{
-    this->cleanup();
-}
-
-
-template<class X> Differential<X>::Differential(const Expansion<MultiIndex,X>& e, DegreeType deg)
-    : _expansion(e.argument_size(),e.zero_coefficient()),_degree(deg)
-{
-    for(typename Expansion<MultiIndex,X>::ConstIterator iter=e.begin(); iter!=e.end(); ++iter) {
-        if(iter->index().degree()<=deg) { this->_expansion.append(iter->index(),iter->coefficient()); }
-    }
-    this->cleanup();
-}
-
-
-template<class X> Differential<X>& Differential<X>::operator=(const X& c) {
-    this->_expansion.clear();
-    this->_expansion.append(MultiIndex(this->argument_size()),c);
-    return *this;
-}
-
-
-template<class X> Differential<X> Differential<X>::constant(SizeType as, DegreeType deg, const X& c) {
-    Differential<X> r(as,deg,nul(c));
-    r._expansion.append(MultiIndex(as),c);
-    return r;
-}
-
-template<class X> Differential<X> Differential<X>::variable(SizeType as, DegreeType deg, const X& v, SizeType j) {
-    Differential<X> r(as,deg,nul(v));
-    MultiIndex a(as);
-    r._expansion.append(a,v);
-    a[j]=1;
-    X one(v); one=1;
-    r._expansion.append(a,one);
-    return r;
-}
-
-template<class X> Differential<X> Differential<X>::affine(SizeType as, DegreeType deg, const X& x, const Covector<X>& g) {
-    ARIADNE_ASSERT_MSG(as==g.size(), "g.size()="<<g.size()<<" must equal as="<<as);
-    Differential<X> r(as,deg,nul(x));
-    MultiIndex a(as);
-    r._expansion.append(a,x);
-    for (SizeType j=0; j!=as; ++j) {
-        a[j]=1;
-        r._expansion.append(a,g[j]);
-        a[j]=0;
-    }
-    return r;
-}
-
-template<class X> Differential<X> Differential<X>::affine(DegreeType deg, const X& x, const Covector<X>& g) {
-    return affine(g.size(),deg,x,g);
-}
-
-
-template<class X> Vector<Differential<X>> Differential<X>::constants(SizeType rs, SizeType as, DegreeType deg, const Vector<X>& c) {
-    ARIADNE_ASSERT(c.size()==rs);
-    return constants(as,deg,c);
-}
-
-template<class X> Vector<Differential<X>> Differential<X>::variables(SizeType rs, SizeType as, DegreeType deg, const Vector<X>& x) {
-    ARIADNE_ASSERT(x.size()==rs);  ARIADNE_ASSERT(as==x.size());
-    return variables(deg,x);
-}
-
-template<class X> Vector<Differential<X>> Differential<X>::constants(SizeType as, DegreeType deg, const Vector<X>& c) {
-    Vector<Differential<X>> r(c.size(),Differential(as,deg,c.zero_element()));
-    for(SizeType i=0; i!=c.size(); ++i) { r[i]=c[i]; }
-    return r;
-}
-
-template<class X> Vector<Differential<X>> Differential<X>::variables(DegreeType deg, const Vector<X>& v) {
-    X zero=v.zero_element();
-    Vector<Differential<X>> r(v.size(),Differential<X>(v.size(),deg,zero));
-    X& one=zero; one=1;
-    MultiIndex a(v.size());
-    for(SizeType i=0; i!=v.size(); ++i) {
-        r[i]._expansion.append(a,v[i]);
-        a[i]=1; r[i]._expansion.append(a,one); a[i]=0;
-    }
-    return r;
-}
-
-template<class X> Vector<Differential<X>> Differential<X>::affine(DegreeType deg, const Vector<X>& v, const Matrix<X>& G) {
-    X zero=v.zero_element();
-    Vector<Differential<X>> r(v.size(),Differential<X>(v.size(),deg,zero));
-    MultiIndex a(r.argument_size());
-    for(SizeType i=0; i!=r.size(); ++i) {
-        r[i]._expansion.append(a,v[i]);
-        for(SizeType j=0; j!=r.argument_size(); ++j) {
-            const X& gij=G[i][j];
-            if(!decide(gij==0)) { a[j]=1; r[i]._expansion.append(a,gij); a[j]=0; }
-        }
-    }
-    return r;
-}
-
-
-template<class X> Differential<X> Differential<X>::identity(DegreeType deg, const X& x) {
-    return variable(1u,deg,x,0u);
-}
-template<class X> Vector<Differential<X>> Differential<X>::identity(DegreeType deg, const Vector<X>& x) {
-    return variables(deg,x);
-}
-
-
-template<class X> EqualityType<X> Differential<X>::operator==(const Differential<X>& other) const {
-    Differential<X> const& self=*this;
-    if(self.argument_size()!=other.argument_size()) { return false; }
-    EqualityType<X> result=true;
-    IndexComparisonType less;
-    ConstIterator self_iter=self.begin(); ConstIterator other_iter=other.begin();
-    while(self_iter!=self.end() && other_iter!=other.end()) {
-        if(self_iter->index()==other_iter->index()) {
-            result = result && (self_iter->coefficient()==other_iter->coefficient());
-            ++self_iter; ++other_iter;
-        } else if (less(self_iter->index(), other_iter->index())) {
-            result = result && static_cast<EqualityType<X>>(self_iter->coefficient()==0);
-            ++self_iter;
-        } else { // (self_iter->index() > other_iter->index())
-            result = result && static_cast<EqualityType<X>>(other_iter->coefficient()==0);
-            ++other_iter;
-        }
-    }
-    while(self_iter!=self.end()) {
-        result = result && static_cast<EqualityType<X>>(self_iter->coefficient()==0);
-        ++self_iter;
-    }
-    while(other_iter!=other.end()) {
-        result = result && static_cast<EqualityType<X>>(other_iter->coefficient()==0);
-        ++other_iter;
-    }
-    return result;
-}
-
-template<class X> InequalityType<X> Differential<X>::operator!=(const Differential<X>& other) const {
-    return !(*this==other);
-}
-
-
-template<class X> SizeType Differential<X>::argument_size() const {
-    return this->_expansion.argument_size();
-}
-
-template<class X> DegreeType Differential<X>::degree() const {
-    return this->_degree;
-}
-
-template<class X> X Differential<X>::zero_coefficient() const {
-    return this->_expansion.zero_coefficient();
-}
-
-template<class X> const Expansion<MultiIndex,X>& Differential<X>::expansion() const {
-    return this->_expansion;
-}
-
-template<class X> Expansion<MultiIndex,X>& Differential<X>::expansion() {
-    return this->_expansion;
-}
-
-template<class X> const X& Differential<X>::value() const {
-    return this->operator[](MultiIndex(this->argument_size()));
-}
-
-template<class X> const X& Differential<X>::gradient(SizeType j) const {
-    return this->operator[](MultiIndex::unit(this->argument_size(),j));
-}
-
-template<class X> Covector<X> Differential<X>::gradient() const {
-    Covector<X> g(this->argument_size(),this->zero_coefficient());
-    for(SizeType j=0; j!=g.size(); ++j) { g[j]=this->gradient(j); }
-    return g;
-}
-
-template<class X> Matrix<X> Differential<X>::half_hessian() const {
-    ARIADNE_PRECONDITION(this->degree()>=2);
-    Matrix<X> H(this->argument_size(),this->argument_size(),nul(this->value()));
-    ConstIterator iter=this->begin();
-    while(iter!=this->end() && iter->index().degree()<=1) { ++iter; }
-    SizeType i=0; SizeType j=1;
-    while(iter!=this->end() && iter->index().degree()<=2) {
-        UniformConstReference<MultiIndex> a=iter->index();
-        UniformConstReference<X> c=iter->coefficient();
-        while(a[i]==0) { ++i; j=i+1u; }
-        if(a[i]==2) { H[i][i]=c; }
-        else { while(a[j]==0) { ++j; } H[i][j]=hlf(c); H[j][i]=hlf(c); }
-        ++iter;
-    }
-    return H;
-}
-
-template<class X> Matrix<X> Differential<X>::hessian() const {
-    return this->half_hessian()*2;
-}
-
-
-template<class X> X& Differential<X>::operator[](const SizeType& j) {
-    return this->operator[](MultiIndex::unit(this->argument_size(),j));
-}
-
-template<class X> const X& Differential<X>::operator[](const SizeType& j) const {
-    return this->operator[](MultiIndex::unit(this->argument_size(),j));
-}
-
-template<class X> X& Differential<X>::operator[](const MultiIndex& a) {
-    ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
-    return this->_expansion.at(a);
-}
-
-template<class X> const X& Differential<X>::operator[](const MultiIndex& a) const {
-    ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
-    ConstIterator iter=this->_expansion.find(a);
-    if(iter==this->_expansion.end()) { return this->_expansion.zero_coefficient(); }
-    else { return iter->coefficient(); }
-}
-
-
-template<class X> Void Differential<X>::set_degree(DegreeType deg) {
-    if(deg<this->_degree) {
-        for(auto iter = this->_expansion.begin(); iter!=this->_expansion.end(); ++iter) {
-            if (iter->index().degree() > deg) {
-                this->_expansion.resize(static_cast<SizeType>(iter-this->_expansion.begin()));
-                break;
-            }
-        }
-    }
-    this->_degree = deg;
-}
-
-template<class X> Void Differential<X>::set_value(const X& c) {
-    this->operator[](MultiIndex(this->argument_size()))=c;
-}
-
-template<class X> Void Differential<X>::set_gradient(SizeType j, const X& d) {
-    this->operator[](MultiIndex::unit(this->argument_size(),j))=d;
-}
-
-
-template<class X> typename Differential<X>::Iterator Differential<X>::begin() {
-    return this->_expansion.begin();
-}
-
-template<class X> typename Differential<X>::Iterator Differential<X>::end() {
-    return this->_expansion.end();
-}
-
-template<class X> typename Differential<X>::ConstIterator Differential<X>::begin() const {
-    return this->_expansion.begin();
-}
-
-template<class X> typename Differential<X>::ConstIterator Differential<X>::end() const {
-    return this->_expansion.end();
-}
-
-
-template<class X> Differential<X> Differential<X>::create() const {
-    return Differential<X>(this->argument_size(),this->degree(),this->zero_coefficient());
-}
-
-template<class X> Differential<X> Differential<X>::create_zero() const {
-    return Differential<X>(this->argument_size(),this->degree(),this->zero_coefficient());
-}
-
-template<class X> Differential<X> Differential<X>::create_constant(NumericType const& c) const {
-    return Differential<X>::constant(this->argument_size(),this->degree(),c);
-}
-
-template<class X> Differential<X> Differential<X>::create_constant(Int c) const {
-    X xc=this->value(); xc=c; return Differential<X>::constant(this->argument_size(),this->degree(),xc);
-}
-
-
-template<class X> Void Differential<X>::clear() {
-    this->_expansion.clear();
-}
-
-template<class X> Void Differential<X>::cleanup() {
-    this->_expansion.sort();
-    this->_expansion.combine_terms();
-    this->_expansion.remove_zeros();
-}
-
-template<class X> Void Differential<X>::check() const {
-    for(auto iter=this->begin(); iter!=this->end(); ++iter) {
-        ARIADNE_ASSERT_MSG(iter->index().degree()<=this->degree(), *this);
-        auto next = iter; ++next;
-        ARIADNE_ASSERT_MSG(graded_less(iter->index(),next->index()),"ErrorTag in ordering Differential "<<this->expansion());
-    }
-}
-
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Pos op, Differential<X> x)
-{
-    for(auto iter=x.begin(); iter!=x.end(); ++iter) {
-        UniformReference<X> xa=iter->coefficient();
-        xa=+xa;
-    }
-    return x;
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Neg op, Differential<X> x)
-{
-    for(auto iter=x.begin(); iter!=x.end(); ++iter) {
-        UniformReference<X> xa=iter->coefficient();
-        xa=-xa;
-    }
-    return x;
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Add op, Differential<X> x, const X& c)
-{
-    MultiIndex a(x.argument_size());
-    if(x.expansion().empty()) {
-        x.expansion().append(a,c);
-    } else if(x.begin()->index()!=a) {
-        x.expansion().prepend(a,c);
-    } else {
-        x.begin()->coefficient()+=c;
-    }
-    return x;
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Mul op, Differential<X> x, const X& c)
-{
-    if(decide(c==0)) {
-        x.clear();
-    } else {
-        for(auto iter=x.begin(); iter!=x.end(); ++iter) {
-            iter->coefficient()*=c;
-        }
-    }
-    return x;
-}
-
-
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Add op, const Differential<X>& x, const Differential<X>& y)
-{
-    ARIADNE_ASSERT_MSG(x.argument_size()==y.argument_size(),"x="<<x<<" y="<<y);
-    Differential<X> r(x.argument_size(),min(x.degree(),y.degree()),add(x.zero_coefficient(),y.zero_coefficient()));
-    typename Differential<X>::ConstIterator xiter=x.begin();
-    typename Differential<X>::ConstIterator yiter=y.begin();
-    // No need to check if maximum degree has been reached below,
-    // since if one Iterator is above the maximum degree, the other is at the end.
-    while(xiter!=x.end() && yiter!=y.end()) {
-        if(xiter->index()==yiter->index()) {
-            r.expansion().append(xiter->index(),xiter->coefficient()+yiter->coefficient());
-            ++xiter; ++yiter;
-        } else if(graded_less(xiter->index(),yiter->index())) {
-            r.expansion().append(xiter->index(),xiter->coefficient());
-            ++xiter;
-        } else {
-            r.expansion().append(yiter->index(),yiter->coefficient());
-            ++yiter;
-        }
-    }
-    while(xiter!=x.end() && xiter->index().degree()<=r.degree()) {
-        r.expansion().append(xiter->index(),xiter->coefficient());
-        ++xiter;
-    }
-    while(yiter!=y.end() && yiter->index().degree()<=r.degree()) {
-        r.expansion().append(yiter->index(),yiter->coefficient());
-        ++yiter;
-    }
-    //std::cerr<<"x="<<x<<" y="<<y<<" x+y="<<r<<"\n";
-    return r;
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Sub op, const Differential<X>& x, const Differential<X>& y)
-{
-    ARIADNE_ASSERT_MSG(x.argument_size()==y.argument_size(),"x="<<x<<" y="<<y);
-    Differential<X> r(x.argument_size(),min(x.degree(),y.degree()),sub(x.zero_coefficient(),y.zero_coefficient()));
-    typename Differential<X>::ConstIterator xiter=x.begin();
-    typename Differential<X>::ConstIterator yiter=y.begin();
-    // No need to check if maximum degree has been reached below,
-    // since if one Iterator is above the maximum degree, the other is at the end.
-    while(xiter!=x.end() && yiter!=y.end()) {
-        if(xiter->index()==yiter->index()) {
-            r.expansion().append(xiter->index(),xiter->coefficient()-yiter->coefficient());
-            ++xiter; ++yiter;
-        } else if(graded_less(xiter->index(),yiter->index())) {
-            r.expansion().append(xiter->index(),xiter->coefficient());
-            ++xiter;
-        } else {
-            r.expansion().append(yiter->index(),-yiter->coefficient());
-            ++yiter;
-        }
-    }
-    while(xiter!=x.end() && xiter->index().degree()<=r.degree()) {
-        r.expansion().append(xiter->index(),xiter->coefficient());
-        ++xiter;
-    }
-    while(yiter!=y.end() && yiter->index().degree()<=r.degree()) {
-        r.expansion().append(yiter->index(),-yiter->coefficient());
-        ++yiter;
-    }
-    //std::cerr<<"x="<<x<<" y="<<y<<" x-y="<<r<<"\n";
-    return r;
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Mul op, const Differential<X>& x, const Differential<X>& y)
-{
-    typedef typename Differential<X>::ConstIterator ConstIterator;
-    ARIADNE_ASSERT_MSG(x.argument_size()==y.argument_size(),"x="<<x<<" y="<<y);
-    Differential<X> r(x.argument_size(),min(x.degree(),y.degree()),mul(x.zero_coefficient(),y.zero_coefficient()));
-    MultiIndex a(x.argument_size());
-    X c(x.zero_coefficient()*y.zero_coefficient());
-    for(ConstIterator xiter=x.expansion().begin(); xiter!=x.expansion().end(); ++xiter) {
-        if(xiter->index().degree()>r.degree()) { break; }
-        for(ConstIterator yiter=y.expansion().begin(); yiter!=y.expansion().end(); ++yiter) {
-            if(xiter->index().degree()+yiter->index().degree()>r.degree()) { break; }
-            a=xiter->index()+yiter->index();
-            c=xiter->coefficient()*yiter->coefficient();
-            r.expansion().append(a,c);
-        }
-    }
-    r.cleanup();
-    //std::cerr<<"x="<<x<<" y="<<y<<" x*y="<<r<<"\n";
-    return r;
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Div op, const Differential<X>& x, const Differential<X>& y)
-{
-    return x * rec(y);
-}
-
-template<class X>
-Differential<X> AlgebraOperations<Differential<X>>::apply(Pow op, const Differential<X>& x, Int n)
-{
-    return generic_pow(x,n);
-}
-
-
-template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Min op, const Differential<X>& x1, const Differential<X>& x2) {
-    // FIXME: Maybe need different code for validated and approximate paradigms
-    ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
-    if(decide(x1.value()==x2.value())) {
-        ARIADNE_THROW(std::runtime_error,"min(Differential<X> x1, Differential<X> x2)","x1[0]==x2[0]");
-    }
-    return decide(x1.value()<x2.value()) ? x1 : x2;
-}
-
-
-template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Max op, const Differential<X>& x1,const Differential<X>& x2) {
-    ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
-    if(decide(x1.value()==x2.value())) {
-        ARIADNE_THROW(std::runtime_error,"max(Differential<X> x1, Differential<X> x2)","x1[0]==x2[0]");
-    }
-    return decide(x1.value()>x2.value()) ? x1 : x2;
-}
-
-template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Abs op, const Differential<X>& x) {
-    // FIXME: Maybe need different code for validated and approximate paradigms
-    if(decide(x.value()==0)) {
-        ARIADNE_THROW(std::runtime_error,"abs(Differential<X> x)","x[0]==0");
-    }
-    return decide(x.value()>0) ? pos(x) : neg(x);
-}
-
-
-
-
-template<class X> Differential<X> _evaluate(const Differential<X>& x, const Vector<Differential<X>>& a)
-{
-    ARIADNE_ASSERT_MSG(x.argument_size()==a.size(), "x="<<x<<" a="<<a);
-    DegreeType d=x.degree();
-    SizeType ms=a.size();
-    ARIADNE_ASSERT(d>=1);
-
-    Differential<X> zero = a.zero_element();
-    X x_one=zero.zero_coefficient(); x_one=1;
-    Differential<X> one=zero.create_constant(x_one);
-
-    // Use inefficient brute-force approach with lots of storage...
-    Array< Array< Differential<X> > > val(ms, Array< Differential<X> >(d+1u,zero));
-    for(SizeType j=0; j!=ms; ++j) {
-        val[j][0]=one;
-        val[j][1]=a[j];
-        for(SizeType k=2; k<=d; ++k) {
-            val[j][k]=val[j][k-1u]*a[j];
-        }
-    }
-
-    Differential<X> r(zero);
-    for(auto iter=x.begin(); iter!=x.end(); ++iter)
-    {
-        UniformConstReference<MultiIndex> j=iter->index();
-        UniformConstReference<X> c=iter->coefficient();
-        Differential<X> t=one;
-        for(SizeType k=0; k!=ms; ++k) {
-            t=t*val[k][j[k]];
-        }
-        t*=c;
-        r+=t;
-        //std::cerr<<" j="<<j<<" c="<<c<<" r="<<r<<std::endl;
-    }
-    return r;
-}
-
-
-template<class X>
-Differential<X> Differential<X>::_compose(const UnivariateDifferential<X>& x, const Differential<X>& y)
-{
-    SizeType as=y.argument_size();
-    DegreeType d=min(x.degree(),y.degree());
-
-    Differential<X> w=y;
-    if(w.begin()->index().degree()==0) { w.begin()->coefficient()=0; }
-    Differential<X> r(as,d,y.zero_coefficient());
-    r[MultiIndex(as)]=x[d];
-    for(SizeType n=1; n<=d; ++n) {
-        r=r*w;
-        r+=x[d-n];
-    }
-    return r;
-}
-
-template<class X>
-Differential<X> Differential<X>::_compose(const Differential<X>& x, const Vector<Differential<X>>& y)
-{
-    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
-    X zero(y.zero_element().zero_coefficient());
-    Vector<X> yv(y.size(),zero);
-    DegreeType deg=min(x.degree(),y.degree());
-    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
-    Differential<X> r=_evaluate(x,ync);
-    r.set_degree(deg);
-    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
-    return r;
-}
-
-
-template<class X>
-Vector<Differential<X>> Differential<X>::_compose(const Vector<Differential<X>>& x, const Vector<Differential<X>>& y)
-{
-    //std::cerr<<"compose(DV x, DV y)\n x="<<x<<"\n y="<<y<<std::endl;
-    X zero(y.zero_element().zero_coefficient());
-    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
-    Vector<X> yv(y.size(),zero);
-    DegreeType deg=min(x.degree(),y.degree());
-    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
-    Vector<Differential<X>> r(x.size(),y.argument_size(),deg,y.zero_coefficient());
-    for(SizeType i=0; i!=x.result_size(); ++i) { r[i]=_evaluate(x[i],y); r[i].set_degree(deg); }
-    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
-    return r;
-}
-
-
-template<class X>
-Differential<X> Differential<X>::_derivative(const Differential<X>& x, SizeType i)
-{
-    if(x.degree()==0) { return Differential<X>(x.argument_size(),0u,x.zero_coefficient()); }
-    Differential<X> r(x.argument_size(), x.degree()-1u,x.zero_coefficient());
-    MultiIndex a(x.argument_size());
-    for(typename Differential<X>::ConstIterator iter=x.begin(); iter!=x.end(); ++iter) {
-        a=iter->index();
-        Nat n=a[i];
-        if(n!=0) {
-            const X& xc=x[a];
-            --a[i];
-            X& rc=r[a];
-            rc=xc*n;
-        }
-    }
-    return r;
-}
-
-template<class X>
-Differential<X> Differential<X>::_antiderivative(const Differential<X>& x, SizeType i)
-{
-    Differential<X> r(x.argument_size(), x.degree()+1u,x.zero_coefficient());
-    MultiIndex a(x.argument_size());
-    MultiIndex ra=MultiIndex(x.argument_size());
-    MultiIndex ai=MultiIndex::unit(x.argument_size(),i);
-    for(typename Differential<X>::ConstIterator iter=x.begin(); iter!=x.end(); ++iter) {
-        a=iter->index();
-        const X& xc=x[a];
-        ++a[i];
-        Nat n=a[i];
-        X& rc=r[a];
-        rc=xc/n;
-    }
-    return r;
-}
-
-
-template<class X> OutputStream& write_expansion(OutputStream& os, Differential<X> const& dx) {
-    Expansion<MultiIndex,X> e=dx.expansion();
-    //e.graded_sort();
-    os << "{";
-    for(typename Expansion<MultiIndex,X>::ConstIterator iter=e.begin(); iter!=e.end(); ++iter) {
-        if(iter!=e.begin()) { os << ","; } os << " ";
-        for(SizeType i=0; i!=e.argument_size(); ++i) {
-            if(i!=0) { os << ","; }
-            os << SizeType(iter->index()[i]);
-        }
-        os << ":" << X(iter->coefficient());
-    }
-    return os << " }";
-}
-
-template<class X>
-OutputStream& Differential<X>::_write(OutputStream& os) const
-{
-    Differential<X> const& dx=*this;
-    os << "Differential(as="<<dx.argument_size()<<",deg="<<(uint)dx.degree()<<")";
-    write_expansion(os,dx);
-    return os;
-}
-
-
-
-
-
-template<class X> Vector<Differential<X>>::Vector(SizeType rs, SizeType as, DegreeType d, X const& z)
-    : _chars(as,d,z.precision()), _ary(rs,Differential<X>(as,d,z)) {
-}
-
-template<class X> Vector<Differential<X>>::Vector(SizeType rs, const Differential<X>& sd)
-    : _chars(sd), _ary(rs,sd) {
-}
-
-template<class X> Vector<Differential<X>>::Vector(InitializerList<Differential<X>> const& lst)
-    : _chars((assert(lst.size()>0),*lst.begin())), _ary(lst)
-{
-    ARIADNE_ASSERT(_ary.size()>0); _chars=DifferentialCharacteristics<X>(_ary[0]);
-}
-
-template<class X> Vector<Differential<X>>::Vector(Array<Differential<X>> ary)
-    : _chars((assert(ary.size()>0),*ary.begin())), _ary(std::move(ary))
-{
-    ARIADNE_ASSERT(_ary.size()>0); _chars=DifferentialCharacteristics<X>(_ary[0]);
-}
-
-
-
-template<class X> Vector<X> Vector<Differential<X>>::value() const {
-    Vector<Differential<X>> const& x=*this;
-    Vector<X> r(x.result_size(),x.zero_coefficient());
-    for(SizeType i=0; i!=r.size(); ++i) {
-        r[i]=x[i].value();
-    }
-    return r;
-}
-
-template<class X> Matrix<X> Vector<Differential<X>>::jacobian() const {
-    Vector<Differential<X>> const& x=*this;
-    Matrix<X> r(x.size(),x.argument_size(),x.zero_coefficient());
-    for(SizeType i=0; i!=x.size(); ++i) {
-        for(SizeType j=0; j!=x[0].argument_size(); ++j) {
-            r[i][j]=x[i].gradient(j);
-
-        }
-    }
-    return r;
-}
-
-template<class X> Void Vector<Differential<X>>::set_value(const Vector<X>& c) {
-    ARIADNE_ASSERT(this->result_size()==c.size());
-    for(SizeType i=0; i!=c.size(); ++i) {
-        (*this)[i].set_value(c[i]);
-    }
-}
-
-template<class X> Void Vector<Differential<X>>::set_degree(DegreeType deg) {
-    for(SizeType i=0; i!=this->size(); ++i) {
-        (*this)[i].set_degree(deg);
-    }
-    this->_chars=DifferentialCharacteristics<X>(this->argument_size(),deg,this->zero_coefficient());
-}
-
-
-
-template<class X> Vector<Differential<X>> Vector<Differential<X>>::_compose(Vector<Differential<X>> const& x, Vector<Differential<X>> const& y) {
-    Vector<Differential<X>> r(x.size(),y.zero_element());
-    r.set_degree(min(x.degree(),y.degree()));
-    for(SizeType i=0; i!=r.size(); ++i) { r[i]=compose(x[i],y); }
-    return r;
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_derivative(const Vector<Differential<X>>& x, SizeType k) {
-    X z=x.zero_element().zero_coefficient();
-    Vector<Differential<X>> r(x.size(), Differential<X>(x.argument_size(),max(x.degree(),(DegreeType)1u)-1u,z));
-    for(SizeType i=0; i!=r.size(); ++i) { r[i]=derivative(x[i],k); }
-    return r;
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_antiderivative(const Vector<Differential<X>>& x, SizeType k) {
-    X z=x.zero_element().zero_coefficient();
-    Vector<Differential<X>> r(x.size(), Differential<X>(x.argument_size(),x.degree()+1u,z));
-    for(SizeType i=0; i!=r.size(); ++i) { r[i]=antiderivative(x[i],k); }
-    return r;
-}
-
-
-
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_lie_derivative(const Vector<Differential<X> >& df, const Vector<Differential<X> >& dg)
-{
-    X z=dg.zero_element().zero_coefficient();
-    Vector<Differential<X>> r(df.result_size(),df.argument_size(),df.degree()-1u,z);
-    Differential<X> t(df.argument_size(), df.degree()-1u,z);
-    MultiIndex a(df.argument_size()); X c=z;
-    for(SizeType i=0; i!=df.result_size(); ++i) {
-        Expansion<MultiIndex,X> const& dfi_expansion = df[i].expansion();
-        Expansion<MultiIndex,X>& t_expansion = t.expansion();
-        for(SizeType j=0; j!=df.argument_size(); ++j) {
-            for(typename Expansion<MultiIndex,X>::ConstIterator iter=dfi_expansion.begin(); iter!=dfi_expansion.end(); ++iter) {
-                if(iter->index()[j]!=0) {
-                    a=iter->index();
-                    c=iter->coefficient()*SizeType(a[j]);
-                    a[j]-=1;
-                    t_expansion.append(a,c);
-                }
-            }
-            r[i]+=t*dg[j];
-            t.clear();
-        }
-    }
-    return r;
-}
-
-
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_solve(const Vector<Differential<X> >& df, const Vector<X>& y0)
-{
-    ARIADNE_ASSERT(df.result_size()<=df.argument_size());
-    ARIADNE_ASSERT(df.result_size()==y0.size());
-
-    const SizeType m=df.result_size();
-    const SizeType n=df.argument_size();
-    const SizeType deg=df.degree();
-    const X z=df.zero_element().zero_coefficient();
-
-    const SizeType l=n-m;
-
-    Vector<Differential<X>> dx=Vector<Differential<X>>(l,l,deg,z);
-    for(SizeType i=0; i!=l; ++i) { dx[i]=Differential<X>::variable(l,deg,z,i); }
-
-    Matrix<X> Jf = df.jacobian();
-    //Matrix<X> J1f = project(Jf,range(0,m),range(0,n-m));
-    Matrix<X> J2f = project(Jf,range(0,m),range(n-m,n));
-    Matrix<X> invJ2f = inverse(J2f);
-
-    // Iterate Newton-like steps to find derivatives of solution
-    // TODO: This iteration repeats computation of lower-degree terms, so could be made more efficient
-    Vector<Differential<X>> dh=Differential<X>::constants(m,l,deg,y0);
-    for(SizeType i=0; i<=df.degree()+1u; ++i) {
-        dh = dh - invJ2f * compose(df,join(dx,dh));
-    }
-    return dh;
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0)
-{
-    ARIADNE_ASSERT(df.result_size()==df.argument_size());
-    ARIADNE_ASSERT(x0.size()==df.argument_size());
-    const SizeType n=df.result_size();
-    const SizeType deg=df.degree();
-    const X z=df.zero_element().zero_coefficient();
-    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u,deg+1u,x0[i],i);});
-    Vector<Differential<X>> dphi=Vector<Differential<X>>(n,n+1u,0u,z);
-    // TODO: This iteration repeats computation of lower-degree terms, so could be made more efficient
-    for(SizeType i=0; i<deg+1u; ++i) {
-        dphi=dx0+antiderivative(compose(df,dphi),n);
-    }
-    return dphi;
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0, X const& t0)
-{
-    ARIADNE_ASSERT(df.result_size()==x0.size());
-    ARIADNE_ASSERT(df.argument_size()==x0.size()+1u);
-    const SizeType n=x0.size(); // Number of state variables; also index of time variable
-    const SizeType deg=df.degree();
-
-    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u,deg+1u,x0[i],i);});
-    Vector<Differential<X>> dt0=Vector<Differential<X>>(1,Differential<X>::variable(n+1u,deg+1u,t0,n));
-
-    return _flow(df,dx0, dt0);
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0, Vector<X> const& a)
-{
-    ARIADNE_ASSERT(df.result_size()==x0.size());
-    ARIADNE_ASSERT(df.argument_size()==x0.size()+a.size());
-    const SizeType n=x0.size(); // Number of state variables; also index of time variable
-    const SizeType m=a.size();
-    const SizeType deg=df.degree();
-
-    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,x0[i],i);});
-    Vector<Differential<X>> da(m,n+1u+m,deg+1u,a.zero_element());
-    for (SizeType i=0; i!=m; ++i) { da[i]=Differential<X>::variable(n+1u+m,deg+1u,a[i],n+1u+i); }
-
-    return _flow(df,dx0, da);
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0, X const& t0, Vector<X> const& a)
-{
-    ARIADNE_ASSERT(df.result_size()==x0.size());
-    ARIADNE_ASSERT(df.argument_size()==x0.size()+1u+a.size());
-    const SizeType n=x0.size(); // Number of state variables; also index of time variable
-    const SizeType m=a.size();
-    const SizeType deg=df.degree();
-
-    Vector<X> t0a=join(t0,a);
-    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,x0[i],i);});
-    Vector<Differential<X>> dt0a=Vector<Differential<X>>(m+1,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,t0a[i],n+i);});
-
-    return _flow(df,dx0, dt0a);
-}
-
-template<class X>
-Vector<Differential<X>>
-Vector<Differential<X>>::_flow(const Vector<Differential<X>>& df, const Vector<Differential<X>>& dx0, const Vector<Differential<X>>& dt0a)
-{
-    ARIADNE_ASSERT(df.result_size()==dx0.result_size());
-    ARIADNE_ASSERT(df.argument_size()==dx0.result_size()+dt0a.result_size());
-    ARIADNE_ASSERT(dx0.argument_size()==dt0a.argument_size());
-    ARIADNE_ASSERT(dx0.result_size()<dx0.argument_size()); // dx0 has strictly more arguments since time is an input
-
-    const SizeType n=dx0.result_size(); const SizeType p=dx0.argument_size();
-    const SizeType deg=min(min(df.degree(),dt0a.degree())+1u,dx0.degree());
-    const X z=dx0.zero_element().zero_coefficient();
-
-    Vector<Differential<X>> dphi=Vector<Differential<X>>(n,p,0u,z);
-    for(SizeType i=0; i<deg; ++i) {
-        dphi=dx0+antiderivative(compose(df,join(dphi,dt0a)),n);
-    }
-    return dphi;
-}
-
-
-template<class X>
-OutputStream& Vector<Differential<X>>::_write(OutputStream& os) const
-{
-    Vector<Differential<X>> const& dx=*this;
-    os << "DifferentialVector(rs="<<dx.result_size()<<",as="<<dx.argument_size()<<",deg="<<(uint)dx.degree()<<")";
-    os << "[ "; for(SizeType i=0; i!=this->size(); ++i) { if(i!=0) { os << ", "; } write_expansion(os,dx[i]); } os << " ]";
-    return os;
-}
-
-
-} //namespace Ariadne
+/***************************************************************************
+ *            differential.tpl.hpp
+ *
+ *  Copyright  2008-20  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+#include <map>
+
+#include "utility/macros.hpp"
+#include "utility/array.hpp"
+#include "numeric/float.decl.hpp"
+#include "algebra/vector.hpp"
+#include "algebra/covector.hpp"
+#include "algebra/matrix.hpp"
+#include "algebra/multi_index.hpp"
+#include "algebra/series.hpp"
+#include "algebra/expansion.hpp"
+#include "algebra/expansion.inl.hpp"
+
+namespace Ariadne {
+
+template<class X> class Vector;
+template<class X> class Matrix;
+template<class X> class Series;
+
+template<class I, class X> class Expansion;
+template<class X> class Differential;
+
+
+inline DegreeType min(DegreeType d1, DegreeType d2) { return std::min(d1,d2); }
+inline DegreeType max(DegreeType d1, DegreeType d2) { return std::max(d1,d2); }
+
+//template<class X> Differential<X>::Differential() : _expansion(0), _degree(0) { }
+
+template<class X> Differential<X>::Differential(SizeType as, DegreeType deg, X const& z) : _expansion(as,z), _degree(deg) { }
+
+template<class X> Differential<X>::Differential(const Map<MultiIndex,X>& map, DegreeType deg)
+    : _expansion(0u,(assert(!map.empty()),nul(map.begin()->second)))
+{
+    ARIADNE_NOT_IMPLEMENTED;
+}
+
+template<class X>
+Differential<X>::Differential(SizeType as, DegreeType deg,
+                              InitializerList< Pair<InitializerList<DegreeType>,X> > lst)
+    : _expansion(Expansion<MultiIndex,X>(lst)), _degree(deg)
+{
+    this->cleanup();
+}
+
+
+template<class X> Differential<X>::Differential(const Expansion<MultiIndex,X>& e, DegreeType deg)
+    : _expansion(e.argument_size(),e.zero_coefficient()),_degree(deg)
+{
+    for(typename Expansion<MultiIndex,X>::ConstIterator iter=e.begin(); iter!=e.end(); ++iter) {
+        if(iter->index().degree()<=deg) { this->_expansion.append(iter->index(),iter->coefficient()); }
+    }
+    this->cleanup();
+}
+
+
+template<class X> Differential<X>& Differential<X>::operator=(const X& c) {
+    this->_expansion.clear();
+    this->_expansion.append(MultiIndex(this->argument_size()),c);
+    return *this;
+}
+
+
+template<class X> Differential<X> Differential<X>::constant(SizeType as, DegreeType deg, const X& c) {
+    Differential<X> r(as,deg,nul(c));
+    r._expansion.append(MultiIndex(as),c);
+    return r;
+}
+
+template<class X> Differential<X> Differential<X>::variable(SizeType as, DegreeType deg, const X& v, SizeType j) {
+    Differential<X> r(as,deg,nul(v));
+    MultiIndex a(as);
+    r._expansion.append(a,v);
+    a[j]=1;
+    X one(v); one=1;
+    r._expansion.append(a,one);
+    return r;
+}
+
+template<class X> Differential<X> Differential<X>::affine(SizeType as, DegreeType deg, const X& x, const Covector<X>& g) {
+    ARIADNE_ASSERT_MSG(as==g.size(), "g.size()="<<g.size()<<" must equal as="<<as);
+    Differential<X> r(as,deg,nul(x));
+    MultiIndex a(as);
+    r._expansion.append(a,x);
+    for (SizeType j=0; j!=as; ++j) {
+        a[j]=1;
+        r._expansion.append(a,g[j]);
+        a[j]=0;
+    }
+    return r;
+}
+
+template<class X> Differential<X> Differential<X>::affine(DegreeType deg, const X& x, const Covector<X>& g) {
+    return affine(g.size(),deg,x,g);
+}
+
+
+template<class X> Vector<Differential<X>> Differential<X>::constants(SizeType rs, SizeType as, DegreeType deg, const Vector<X>& c) {
+    ARIADNE_ASSERT(c.size()==rs);
+    return constants(as,deg,c);
+}
+
+template<class X> Vector<Differential<X>> Differential<X>::variables(SizeType rs, SizeType as, DegreeType deg, const Vector<X>& x) {
+    ARIADNE_ASSERT(x.size()==rs);  ARIADNE_ASSERT(as==x.size());
+    return variables(deg,x);
+}
+
+template<class X> Vector<Differential<X>> Differential<X>::constants(SizeType as, DegreeType deg, const Vector<X>& c) {
+    Vector<Differential<X>> r(c.size(),Differential(as,deg,c.zero_element()));
+    for(SizeType i=0; i!=c.size(); ++i) { r[i]=c[i]; }
+    return r;
+}
+
+template<class X> Vector<Differential<X>> Differential<X>::variables(DegreeType deg, const Vector<X>& v) {
+    X zero=v.zero_element();
+    Vector<Differential<X>> r(v.size(),Differential<X>(v.size(),deg,zero));
+    X& one=zero; one=1;
+    MultiIndex a(v.size());
+    for(SizeType i=0; i!=v.size(); ++i) {
+        r[i]._expansion.append(a,v[i]);
+        a[i]=1; r[i]._expansion.append(a,one); a[i]=0;
+    }
+    return r;
+}
+
+template<class X> Vector<Differential<X>> Differential<X>::affine(DegreeType deg, const Vector<X>& v, const Matrix<X>& G) {
+    X zero=v.zero_element();
+    Vector<Differential<X>> r(v.size(),Differential<X>(v.size(),deg,zero));
+    MultiIndex a(r.argument_size());
+    for(SizeType i=0; i!=r.size(); ++i) {
+        r[i]._expansion.append(a,v[i]);
+        for(SizeType j=0; j!=r.argument_size(); ++j) {
+            const X& gij=G[i][j];
+            if(!decide(gij==0)) { a[j]=1; r[i]._expansion.append(a,gij); a[j]=0; }
+        }
+    }
+    return r;
+}
+
+
+template<class X> Differential<X> Differential<X>::identity(DegreeType deg, const X& x) {
+    return variable(1u,deg,x,0u);
+}
+template<class X> Vector<Differential<X>> Differential<X>::identity(DegreeType deg, const Vector<X>& x) {
+    return variables(deg,x);
+}
+
+
+template<class X> EqualityType<X> Differential<X>::operator==(const Differential<X>& other) const {
+    Differential<X> const& self=*this;
+    if(self.argument_size()!=other.argument_size()) { return false; }
+    EqualityType<X> result=true;
+    IndexComparisonType less;
+    ConstIterator self_iter=self.begin(); ConstIterator other_iter=other.begin();
+    while(self_iter!=self.end() && other_iter!=other.end()) {
+        if(self_iter->index()==other_iter->index()) {
+            result = result && (self_iter->coefficient()==other_iter->coefficient());
+            ++self_iter; ++other_iter;
+        } else if (less(self_iter->index(), other_iter->index())) {
+            result = result && static_cast<EqualityType<X>>(self_iter->coefficient()==0);
+            ++self_iter;
+        } else { // (self_iter->index() > other_iter->index())
+            result = result && static_cast<EqualityType<X>>(other_iter->coefficient()==0);
+            ++other_iter;
+        }
+    }
+    while(self_iter!=self.end()) {
+        result = result && static_cast<EqualityType<X>>(self_iter->coefficient()==0);
+        ++self_iter;
+    }
+    while(other_iter!=other.end()) {
+        result = result && static_cast<EqualityType<X>>(other_iter->coefficient()==0);
+        ++other_iter;
+    }
+    return result;
+}
+
+template<class X> InequalityType<X> Differential<X>::operator!=(const Differential<X>& other) const {
+    return !(*this==other);
+}
+
+
+template<class X> SizeType Differential<X>::argument_size() const {
+    return this->_expansion.argument_size();
+}
+
+template<class X> DegreeType Differential<X>::degree() const {
+    return this->_degree;
+}
+
+template<class X> X Differential<X>::zero_coefficient() const {
+    return this->_expansion.zero_coefficient();
+}
+
+template<class X> const Expansion<MultiIndex,X>& Differential<X>::expansion() const {
+    return this->_expansion;
+}
+
+template<class X> Expansion<MultiIndex,X>& Differential<X>::expansion() {
+    return this->_expansion;
+}
+
+template<class X> const X& Differential<X>::value() const {
+    return this->operator[](MultiIndex(this->argument_size()));
+}
+
+template<class X> const X& Differential<X>::gradient(SizeType j) const {
+    return this->operator[](MultiIndex::unit(this->argument_size(),j));
+}
+
+template<class X> Covector<X> Differential<X>::gradient() const {
+    Covector<X> g(this->argument_size(),this->zero_coefficient());
+    for(SizeType j=0; j!=g.size(); ++j) { g[j]=this->gradient(j); }
+    return g;
+}
+
+template<class X> Matrix<X> Differential<X>::half_hessian() const {
+    ARIADNE_PRECONDITION(this->degree()>=2);
+    Matrix<X> H(this->argument_size(),this->argument_size(),nul(this->value()));
+    ConstIterator iter=this->begin();
+    while(iter!=this->end() && iter->index().degree()<=1) { ++iter; }
+    SizeType i=0; SizeType j=1;
+    while(iter!=this->end() && iter->index().degree()<=2) {
+        UniformConstReference<MultiIndex> a=iter->index();
+        UniformConstReference<X> c=iter->coefficient();
+        while(a[i]==0) { ++i; j=i+1u; }
+        if(a[i]==2) { H[i][i]=c; }
+        else { while(a[j]==0) { ++j; } H[i][j]=hlf(c); H[j][i]=hlf(c); }
+        ++iter;
+    }
+    return H;
+}
+
+template<class X> Matrix<X> Differential<X>::hessian() const {
+    return this->half_hessian()*2;
+}
+
+
+template<class X> X& Differential<X>::operator[](const SizeType& j) {
+    return this->operator[](MultiIndex::unit(this->argument_size(),j));
+}
+
+template<class X> const X& Differential<X>::operator[](const SizeType& j) const {
+    return this->operator[](MultiIndex::unit(this->argument_size(),j));
+}
+
+template<class X> X& Differential<X>::operator[](const MultiIndex& a) {
+    ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
+    return this->_expansion.at(a);
+}
+
+template<class X> const X& Differential<X>::operator[](const MultiIndex& a) const {
+    ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
+    ConstIterator iter=this->_expansion.find(a);
+    if(iter==this->_expansion.end()) { return this->_expansion.zero_coefficient(); }
+    else { return iter->coefficient(); }
+}
+
+
+template<class X> Void Differential<X>::set_degree(DegreeType deg) {
+    if(deg<this->_degree) {
+        for(auto iter = this->_expansion.begin(); iter!=this->_expansion.end(); ++iter) {
+            if (iter->index().degree() > deg) {
+                this->_expansion.resize(static_cast<SizeType>(iter-this->_expansion.begin()));
+                break;
+            }
+        }
+    }
+    this->_degree = deg;
+}
+
+template<class X> Void Differential<X>::set_value(const X& c) {
+    this->operator[](MultiIndex(this->argument_size()))=c;
+}
+
+template<class X> Void Differential<X>::set_gradient(SizeType j, const X& d) {
+    this->operator[](MultiIndex::unit(this->argument_size(),j))=d;
+}
+
+
+template<class X> typename Differential<X>::Iterator Differential<X>::begin() {
+    return this->_expansion.begin();
+}
+
+template<class X> typename Differential<X>::Iterator Differential<X>::end() {
+    return this->_expansion.end();
+}
+
+template<class X> typename Differential<X>::ConstIterator Differential<X>::begin() const {
+    return this->_expansion.begin();
+}
+
+template<class X> typename Differential<X>::ConstIterator Differential<X>::end() const {
+    return this->_expansion.end();
+}
+
+
+template<class X> Differential<X> Differential<X>::create() const {
+    return Differential<X>(this->argument_size(),this->degree(),this->zero_coefficient());
+}
+
+template<class X> Differential<X> Differential<X>::create_zero() const {
+    return Differential<X>(this->argument_size(),this->degree(),this->zero_coefficient());
+}
+
+template<class X> Differential<X> Differential<X>::create_constant(NumericType const& c) const {
+    return Differential<X>::constant(this->argument_size(),this->degree(),c);
+}
+
+template<class X> Differential<X> Differential<X>::create_constant(Int c) const {
+    X xc=this->value(); xc=c; return Differential<X>::constant(this->argument_size(),this->degree(),xc);
+}
+
+
+template<class X> Void Differential<X>::clear() {
+    this->_expansion.clear();
+}
+
+template<class X> Void Differential<X>::cleanup() {
+    this->_expansion.sort();
+    this->_expansion.combine_terms();
+    this->_expansion.remove_zeros();
+}
+
+template<class X> Void Differential<X>::check() const {
+    for(auto iter=this->begin(); iter!=this->end(); ++iter) {
+        ARIADNE_ASSERT_MSG(iter->index().degree()<=this->degree(), *this);
+        auto next = iter; ++next;
+        ARIADNE_ASSERT_MSG(graded_less(iter->index(),next->index()),"ErrorTag in ordering Differential "<<this->expansion());
+    }
+}
+
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Pos op, Differential<X> x)
+{
+    for(auto iter=x.begin(); iter!=x.end(); ++iter) {
+        UniformReference<X> xa=iter->coefficient();
+        xa=+xa;
+    }
+    return x;
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Neg op, Differential<X> x)
+{
+    for(auto iter=x.begin(); iter!=x.end(); ++iter) {
+        UniformReference<X> xa=iter->coefficient();
+        xa=-xa;
+    }
+    return x;
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Add op, Differential<X> x, const X& c)
+{
+    MultiIndex a(x.argument_size());
+    if(x.expansion().empty()) {
+        x.expansion().append(a,c);
+    } else if(x.begin()->index()!=a) {
+        x.expansion().prepend(a,c);
+    } else {
+        x.begin()->coefficient()+=c;
+    }
+    return x;
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Mul op, Differential<X> x, const X& c)
+{
+    if(decide(c==0)) {
+        x.clear();
+    } else {
+        for(auto iter=x.begin(); iter!=x.end(); ++iter) {
+            iter->coefficient()*=c;
+        }
+    }
+    return x;
+}
+
+
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Add op, const Differential<X>& x, const Differential<X>& y)
+{
+    ARIADNE_ASSERT_MSG(x.argument_size()==y.argument_size(),"x="<<x<<" y="<<y);
+    Differential<X> r(x.argument_size(),min(x.degree(),y.degree()),add(x.zero_coefficient(),y.zero_coefficient()));
+    typename Differential<X>::ConstIterator xiter=x.begin();
+    typename Differential<X>::ConstIterator yiter=y.begin();
+    // No need to check if maximum degree has been reached below,
+    // since if one Iterator is above the maximum degree, the other is at the end.
+    while(xiter!=x.end() && yiter!=y.end()) {
+        if(xiter->index()==yiter->index()) {
+            r.expansion().append(xiter->index(),xiter->coefficient()+yiter->coefficient());
+            ++xiter; ++yiter;
+        } else if(graded_less(xiter->index(),yiter->index())) {
+            r.expansion().append(xiter->index(),xiter->coefficient());
+            ++xiter;
+        } else {
+            r.expansion().append(yiter->index(),yiter->coefficient());
+            ++yiter;
+        }
+    }
+    while(xiter!=x.end() && xiter->index().degree()<=r.degree()) {
+        r.expansion().append(xiter->index(),xiter->coefficient());
+        ++xiter;
+    }
+    while(yiter!=y.end() && yiter->index().degree()<=r.degree()) {
+        r.expansion().append(yiter->index(),yiter->coefficient());
+        ++yiter;
+    }
+    //std::cerr<<"x="<<x<<" y="<<y<<" x+y="<<r<<"\n";
+    return r;
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Sub op, const Differential<X>& x, const Differential<X>& y)
+{
+    ARIADNE_ASSERT_MSG(x.argument_size()==y.argument_size(),"x="<<x<<" y="<<y);
+    Differential<X> r(x.argument_size(),min(x.degree(),y.degree()),sub(x.zero_coefficient(),y.zero_coefficient()));
+    typename Differential<X>::ConstIterator xiter=x.begin();
+    typename Differential<X>::ConstIterator yiter=y.begin();
+    // No need to check if maximum degree has been reached below,
+    // since if one Iterator is above the maximum degree, the other is at the end.
+    while(xiter!=x.end() && yiter!=y.end()) {
+        if(xiter->index()==yiter->index()) {
+            r.expansion().append(xiter->index(),xiter->coefficient()-yiter->coefficient());
+            ++xiter; ++yiter;
+        } else if(graded_less(xiter->index(),yiter->index())) {
+            r.expansion().append(xiter->index(),xiter->coefficient());
+            ++xiter;
+        } else {
+            r.expansion().append(yiter->index(),-yiter->coefficient());
+            ++yiter;
+        }
+    }
+    while(xiter!=x.end() && xiter->index().degree()<=r.degree()) {
+        r.expansion().append(xiter->index(),xiter->coefficient());
+        ++xiter;
+    }
+    while(yiter!=y.end() && yiter->index().degree()<=r.degree()) {
+        r.expansion().append(yiter->index(),-yiter->coefficient());
+        ++yiter;
+    }
+    //std::cerr<<"x="<<x<<" y="<<y<<" x-y="<<r<<"\n";
+    return r;
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Mul op, const Differential<X>& x, const Differential<X>& y)
+{
+    typedef typename Differential<X>::ConstIterator ConstIterator;
+    ARIADNE_ASSERT_MSG(x.argument_size()==y.argument_size(),"x="<<x<<" y="<<y);
+    Differential<X> r(x.argument_size(),min(x.degree(),y.degree()),mul(x.zero_coefficient(),y.zero_coefficient()));
+    MultiIndex a(x.argument_size());
+    X c(x.zero_coefficient()*y.zero_coefficient());
+    for(ConstIterator xiter=x.expansion().begin(); xiter!=x.expansion().end(); ++xiter) {
+        if(xiter->index().degree()>r.degree()) { break; }
+        for(ConstIterator yiter=y.expansion().begin(); yiter!=y.expansion().end(); ++yiter) {
+            if(xiter->index().degree()+yiter->index().degree()>r.degree()) { break; }
+            a=xiter->index()+yiter->index();
+            c=xiter->coefficient()*yiter->coefficient();
+            r.expansion().append(a,c);
+        }
+    }
+    r.cleanup();
+    //std::cerr<<"x="<<x<<" y="<<y<<" x*y="<<r<<"\n";
+    return r;
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Div op, const Differential<X>& x, const Differential<X>& y)
+{
+    return x * rec(y);
+}
+
+template<class X>
+Differential<X> AlgebraOperations<Differential<X>>::apply(Pow op, const Differential<X>& x, Int n)
+{
+    return generic_pow(x,n);
+}
+
+
+template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Min op, const Differential<X>& x1, const Differential<X>& x2) {
+    // FIXME: Maybe need different code for validated and approximate paradigms
+    ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
+    if(decide(x1.value()==x2.value())) {
+        ARIADNE_THROW(std::runtime_error,"min(Differential<X> x1, Differential<X> x2)","x1[0]==x2[0]");
+    }
+    return decide(x1.value()<x2.value()) ? x1 : x2;
+}
+
+
+template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Max op, const Differential<X>& x1,const Differential<X>& x2) {
+    ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
+    if(decide(x1.value()==x2.value())) {
+        ARIADNE_THROW(std::runtime_error,"max(Differential<X> x1, Differential<X> x2)","x1[0]==x2[0]");
+    }
+    return decide(x1.value()>x2.value()) ? x1 : x2;
+}
+
+template<class X> Differential<X> AlgebraOperations<Differential<X>>::apply(Abs op, const Differential<X>& x) {
+    // FIXME: Maybe need different code for validated and approximate paradigms
+    if(decide(x.value()==0)) {
+        ARIADNE_THROW(std::runtime_error,"abs(Differential<X> x)","x[0]==0");
+    }
+    return decide(x.value()>0) ? pos(x) : neg(x);
+}
+
+
+
+
+template<class X> Differential<X> _evaluate(const Differential<X>& x, const Vector<Differential<X>>& a)
+{
+    ARIADNE_ASSERT_MSG(x.argument_size()==a.size(), "x="<<x<<" a="<<a);
+    DegreeType d=x.degree();
+    SizeType ms=a.size();
+    ARIADNE_ASSERT(d>=1);
+
+    Differential<X> zero = a.zero_element();
+    X x_one=zero.zero_coefficient(); x_one=1;
+    Differential<X> one=zero.create_constant(x_one);
+
+    // Use inefficient brute-force approach with lots of storage...
+    Array< Array< Differential<X> > > val(ms, Array< Differential<X> >(d+1u,zero));
+    for(SizeType j=0; j!=ms; ++j) {
+        val[j][0]=one;
+        val[j][1]=a[j];
+        for(SizeType k=2; k<=d; ++k) {
+            val[j][k]=val[j][k-1u]*a[j];
+        }
+    }
+
+    Differential<X> r(zero);
+    for(auto iter=x.begin(); iter!=x.end(); ++iter)
+    {
+        UniformConstReference<MultiIndex> j=iter->index();
+        UniformConstReference<X> c=iter->coefficient();
+        Differential<X> t=one;
+        for(SizeType k=0; k!=ms; ++k) {
+            t=t*val[k][j[k]];
+        }
+        t*=c;
+        r+=t;
+        //std::cerr<<" j="<<j<<" c="<<c<<" r="<<r<<std::endl;
+    }
+    return r;
+}
+
+
+template<class X>
+Differential<X> Differential<X>::_compose(const UnivariateDifferential<X>& x, const Differential<X>& y)
+{
+    SizeType as=y.argument_size();
+    DegreeType d=min(x.degree(),y.degree());
+
+    Differential<X> w=y;
+    if(w.begin()->index().degree()==0) { w.begin()->coefficient()=0; }
+    Differential<X> r(as,d,y.zero_coefficient());
+    r[MultiIndex(as)]=x[d];
+    for(SizeType n=1; n<=d; ++n) {
+        r=r*w;
+        r+=x[d-n];
+    }
+    return r;
+}
+
+template<class X>
+Differential<X> Differential<X>::_compose(const Differential<X>& x, const Vector<Differential<X>>& y)
+{
+    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
+    X zero(y.zero_element().zero_coefficient());
+    Vector<X> yv(y.size(),zero);
+    DegreeType deg=min(x.degree(),y.degree());
+    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
+    Differential<X> r=_evaluate(x,ync);
+    r.set_degree(deg);
+    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
+    return r;
+}
+
+
+template<class X>
+Vector<Differential<X>> Differential<X>::_compose(const Vector<Differential<X>>& x, const Vector<Differential<X>>& y)
+{
+    //std::cerr<<"compose(DV x, DV y)\n x="<<x<<"\n y="<<y<<std::endl;
+    X zero(y.zero_element().zero_coefficient());
+    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
+    Vector<X> yv(y.size(),zero);
+    DegreeType deg=min(x.degree(),y.degree());
+    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
+    Vector<Differential<X>> r(x.size(),y.argument_size(),deg,y.zero_coefficient());
+    for(SizeType i=0; i!=x.result_size(); ++i) { r[i]=_evaluate(x[i],y); r[i].set_degree(deg); }
+    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
+    return r;
+}
+
+
+template<class X>
+Differential<X> Differential<X>::_derivative(const Differential<X>& x, SizeType i)
+{
+    if(x.degree()==0) { return Differential<X>(x.argument_size(),0u,x.zero_coefficient()); }
+    Differential<X> r(x.argument_size(), x.degree()-1u,x.zero_coefficient());
+    MultiIndex a(x.argument_size());
+    for(typename Differential<X>::ConstIterator iter=x.begin(); iter!=x.end(); ++iter) {
+        a=iter->index();
+        Nat n=a[i];
+        if(n!=0) {
+            const X& xc=x[a];
+            --a[i];
+            X& rc=r[a];
+            rc=xc*n;
+        }
+    }
+    return r;
+}
+
+template<class X>
+Differential<X> Differential<X>::_antiderivative(const Differential<X>& x, SizeType i)
+{
+    Differential<X> r(x.argument_size(), x.degree()+1u,x.zero_coefficient());
+    MultiIndex a(x.argument_size());
+    MultiIndex ra=MultiIndex(x.argument_size());
+    MultiIndex ai=MultiIndex::unit(x.argument_size(),i);
+    for(typename Differential<X>::ConstIterator iter=x.begin(); iter!=x.end(); ++iter) {
+        a=iter->index();
+        const X& xc=x[a];
+        ++a[i];
+        Nat n=a[i];
+        X& rc=r[a];
+        rc=xc/n;
+    }
+    return r;
+}
+
+
+template<class X> OutputStream& write_expansion(OutputStream& os, Differential<X> const& dx) {
+    Expansion<MultiIndex,X> e=dx.expansion();
+    //e.graded_sort();
+    os << "{";
+    for(typename Expansion<MultiIndex,X>::ConstIterator iter=e.begin(); iter!=e.end(); ++iter) {
+        if(iter!=e.begin()) { os << ","; } os << " ";
+        for(SizeType i=0; i!=e.argument_size(); ++i) {
+            if(i!=0) { os << ","; }
+            os << SizeType(iter->index()[i]);
+        }
+        os << ":" << X(iter->coefficient());
+    }
+    return os << " }";
+}
+
+template<class X>
+OutputStream& Differential<X>::_write(OutputStream& os) const
+{
+    Differential<X> const& dx=*this;
+    os << "Differential(as="<<dx.argument_size()<<",deg="<<(uint)dx.degree()<<")";
+    write_expansion(os,dx);
+    return os;
+}
+
+
+
+
+
+template<class X> Vector<Differential<X>>::Vector(SizeType rs, SizeType as, DegreeType d, X const& z)
+    : _chars(as,d,z.precision()), _ary(rs,Differential<X>(as,d,z)) {
+}
+
+template<class X> Vector<Differential<X>>::Vector(SizeType rs, const Differential<X>& sd)
+    : _chars(sd), _ary(rs,sd) {
+}
+
+template<class X> Vector<Differential<X>>::Vector(InitializerList<Differential<X>> const& lst)
+    : _chars((assert(lst.size()>0),*lst.begin())), _ary(lst)
+{
+    ARIADNE_ASSERT(_ary.size()>0); _chars=DifferentialCharacteristics<X>(_ary[0]);
+}
+
+template<class X> Vector<Differential<X>>::Vector(Array<Differential<X>> ary)
+    : _chars((assert(ary.size()>0),*ary.begin())), _ary(std::move(ary))
+{
+    ARIADNE_ASSERT(_ary.size()>0); _chars=DifferentialCharacteristics<X>(_ary[0]);
+}
+
+
+
+template<class X> Vector<X> Vector<Differential<X>>::value() const {
+    Vector<Differential<X>> const& x=*this;
+    Vector<X> r(x.result_size(),x.zero_coefficient());
+    for(SizeType i=0; i!=r.size(); ++i) {
+        r[i]=x[i].value();
+    }
+    return r;
+}
+
+template<class X> Matrix<X> Vector<Differential<X>>::jacobian() const {
+    Vector<Differential<X>> const& x=*this;
+    Matrix<X> r(x.size(),x.argument_size(),x.zero_coefficient());
+    for(SizeType i=0; i!=x.size(); ++i) {
+        for(SizeType j=0; j!=x[0].argument_size(); ++j) {
+            r[i][j]=x[i].gradient(j);
+
+        }
+    }
+    return r;
+}
+
+template<class X> Void Vector<Differential<X>>::set_value(const Vector<X>& c) {
+    ARIADNE_ASSERT(this->result_size()==c.size());
+    for(SizeType i=0; i!=c.size(); ++i) {
+        (*this)[i].set_value(c[i]);
+    }
+}
+
+template<class X> Void Vector<Differential<X>>::set_degree(DegreeType deg) {
+    for(SizeType i=0; i!=this->size(); ++i) {
+        (*this)[i].set_degree(deg);
+    }
+    this->_chars=DifferentialCharacteristics<X>(this->argument_size(),deg,this->zero_coefficient());
+}
+
+
+
+template<class X> Vector<Differential<X>> Vector<Differential<X>>::_compose(Vector<Differential<X>> const& x, Vector<Differential<X>> const& y) {
+    Vector<Differential<X>> r(x.size(),y.zero_element());
+    r.set_degree(min(x.degree(),y.degree()));
+    for(SizeType i=0; i!=r.size(); ++i) { r[i]=compose(x[i],y); }
+    return r;
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_derivative(const Vector<Differential<X>>& x, SizeType k) {
+    X z=x.zero_element().zero_coefficient();
+    Vector<Differential<X>> r(x.size(), Differential<X>(x.argument_size(),max(x.degree(),(DegreeType)1u)-1u,z));
+    for(SizeType i=0; i!=r.size(); ++i) { r[i]=derivative(x[i],k); }
+    return r;
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_antiderivative(const Vector<Differential<X>>& x, SizeType k) {
+    X z=x.zero_element().zero_coefficient();
+    Vector<Differential<X>> r(x.size(), Differential<X>(x.argument_size(),x.degree()+1u,z));
+    for(SizeType i=0; i!=r.size(); ++i) { r[i]=antiderivative(x[i],k); }
+    return r;
+}
+
+
+
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_lie_derivative(const Vector<Differential<X> >& df, const Vector<Differential<X> >& dg)
+{
+    X z=dg.zero_element().zero_coefficient();
+    Vector<Differential<X>> r(df.result_size(),df.argument_size(),df.degree()-1u,z);
+    Differential<X> t(df.argument_size(), df.degree()-1u,z);
+    MultiIndex a(df.argument_size()); X c=z;
+    for(SizeType i=0; i!=df.result_size(); ++i) {
+        Expansion<MultiIndex,X> const& dfi_expansion = df[i].expansion();
+        Expansion<MultiIndex,X>& t_expansion = t.expansion();
+        for(SizeType j=0; j!=df.argument_size(); ++j) {
+            for(typename Expansion<MultiIndex,X>::ConstIterator iter=dfi_expansion.begin(); iter!=dfi_expansion.end(); ++iter) {
+                if(iter->index()[j]!=0) {
+                    a=iter->index();
+                    c=iter->coefficient()*SizeType(a[j]);
+                    a[j]-=1;
+                    t_expansion.append(a,c);
+                }
+            }
+            r[i]+=t*dg[j];
+            t.clear();
+        }
+    }
+    return r;
+}
+
+
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_solve(const Vector<Differential<X> >& df, const Vector<X>& y0)
+{
+    ARIADNE_ASSERT(df.result_size()<=df.argument_size());
+    ARIADNE_ASSERT(df.result_size()==y0.size());
+
+    const SizeType m=df.result_size();
+    const SizeType n=df.argument_size();
+    const SizeType deg=df.degree();
+    const X z=df.zero_element().zero_coefficient();
+
+    const SizeType l=n-m;
+
+    Vector<Differential<X>> dx=Vector<Differential<X>>(l,l,deg,z);
+    for(SizeType i=0; i!=l; ++i) { dx[i]=Differential<X>::variable(l,deg,z,i); }
+
+    Matrix<X> Jf = df.jacobian();
+    //Matrix<X> J1f = project(Jf,range(0,m),range(0,n-m));
+    Matrix<X> J2f = project(Jf,range(0,m),range(n-m,n));
+    Matrix<X> invJ2f = inverse(J2f);
+
+    // Iterate Newton-like steps to find derivatives of solution
+    // TODO: This iteration repeats computation of lower-degree terms, so could be made more efficient
+    Vector<Differential<X>> dh=Differential<X>::constants(m,l,deg,y0);
+    for(SizeType i=0; i<=df.degree()+1u; ++i) {
+        dh = dh - invJ2f * compose(df,join(dx,dh));
+    }
+    return dh;
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0)
+{
+    ARIADNE_ASSERT(df.result_size()==df.argument_size());
+    ARIADNE_ASSERT(x0.size()==df.argument_size());
+    const SizeType n=df.result_size();
+    const SizeType deg=df.degree();
+    const X z=df.zero_element().zero_coefficient();
+    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u,deg+1u,x0[i],i);});
+    Vector<Differential<X>> dphi=Vector<Differential<X>>(n,n+1u,0u,z);
+    // TODO: This iteration repeats computation of lower-degree terms, so could be made more efficient
+    for(SizeType i=0; i<deg+1u; ++i) {
+        dphi=dx0+antiderivative(compose(df,dphi),n);
+    }
+    return dphi;
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0, X const& t0)
+{
+    ARIADNE_ASSERT(df.result_size()==x0.size());
+    ARIADNE_ASSERT(df.argument_size()==x0.size()+1u);
+    const SizeType n=x0.size(); // Number of state variables; also index of time variable
+    const SizeType deg=df.degree();
+
+    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u,deg+1u,x0[i],i);});
+    Vector<Differential<X>> dt0=Vector<Differential<X>>(1,Differential<X>::variable(n+1u,deg+1u,t0,n));
+
+    return _flow(df,dx0, dt0);
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0, Vector<X> const& a)
+{
+    ARIADNE_ASSERT(df.result_size()==x0.size());
+    ARIADNE_ASSERT(df.argument_size()==x0.size()+a.size());
+    const SizeType n=x0.size(); // Number of state variables; also index of time variable
+    const SizeType m=a.size();
+    const SizeType deg=df.degree();
+
+    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,x0[i],i);});
+    Vector<Differential<X>> da(m,n+1u+m,deg+1u,a.zero_element());
+    for (SizeType i=0; i!=m; ++i) { da[i]=Differential<X>::variable(n+1u+m,deg+1u,a[i],n+1u+i); }
+
+    return _flow(df,dx0, da);
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> const& x0, X const& t0, Vector<X> const& a)
+{
+    ARIADNE_ASSERT(df.result_size()==x0.size());
+    ARIADNE_ASSERT(df.argument_size()==x0.size()+1u+a.size());
+    const SizeType n=x0.size(); // Number of state variables; also index of time variable
+    const SizeType m=a.size();
+    const SizeType deg=df.degree();
+
+    Vector<X> t0a=join(t0,a);
+    Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,x0[i],i);});
+    Vector<Differential<X>> dt0a=Vector<Differential<X>>(m+1,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,t0a[i],n+i);});
+
+    return _flow(df,dx0, dt0a);
+}
+
+template<class X>
+Vector<Differential<X>>
+Vector<Differential<X>>::_flow(const Vector<Differential<X>>& df, const Vector<Differential<X>>& dx0, const Vector<Differential<X>>& dt0a)
+{
+    ARIADNE_ASSERT(df.result_size()==dx0.result_size());
+    ARIADNE_ASSERT(df.argument_size()==dx0.result_size()+dt0a.result_size());
+    ARIADNE_ASSERT(dx0.argument_size()==dt0a.argument_size());
+    ARIADNE_ASSERT(dx0.result_size()<dx0.argument_size()); // dx0 has strictly more arguments since time is an input
+
+    const SizeType n=dx0.result_size(); const SizeType p=dx0.argument_size();
+    const SizeType deg=min(min(df.degree(),dt0a.degree())+1u,dx0.degree());
+    const X z=dx0.zero_element().zero_coefficient();
+
+    Vector<Differential<X>> dphi=Vector<Differential<X>>(n,p,0u,z);
+    for(SizeType i=0; i<deg; ++i) {
+        dphi=dx0+antiderivative(compose(df,join(dphi,dt0a)),n);
+    }
+    return dphi;
+}
+
+
+template<class X>
+OutputStream& Vector<Differential<X>>::_write(OutputStream& os) const
+{
+    Vector<Differential<X>> const& dx=*this;
+    os << "DifferentialVector(rs="<<dx.result_size()<<",as="<<dx.argument_size()<<",deg="<<(uint)dx.degree()<<")";
+    os << "[ "; for(SizeType i=0; i!=this->size(); ++i) { if(i!=0) { os << ", "; } write_expansion(os,dx[i]); } os << " ]";
+    return os;
+}
+
+
+} //namespace Ariadne
diff --git a/source/algebra/fixed_differential.hpp b/source/algebra/fixed_differential.hpp
index 5a1ab3b..2597488 100644
--- a/source/algebra/fixed_differential.hpp
+++ b/source/algebra/fixed_differential.hpp
@@ -1,773 +1,773 @@
-/***************************************************************************
- *            algebra/fixed_differential.hpp
- *
- *  Copyright  2011-20  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-/*! \file algebra/fixed_differential.hpp
- *  \brief First- and second-order multivariate differentials.
- */
-
-#ifndef ARIADNE_FIXED_DIFFERENTIAL_HPP
-#define ARIADNE_FIXED_DIFFERENTIAL_HPP
-
-#include <map>
-
-#include "utility/macros.hpp"
-#include "utility/array.hpp"
-#include "algebra/vector.hpp"
-#include "algebra/matrix.hpp"
-#include "algebra/series.hpp"
-#include "algebra/expansion.hpp"
-#include "algebra/operations.hpp"
-
-#include "algebra/fixed_univariate_differential.hpp"
-
-namespace Ariadne {
-
-template<class X> class Vector;
-template<class X> class Matrix;
-template<class X> class Series;
-
-struct SeriesTag { };
-
-template<class X> class SecondDifferential;
-
-template<class V1, class V2>
-struct SymmetricOuterProduct
-    : public MatrixExpression< SymmetricOuterProduct<V1,V2> >
-{
-    typedef typename V1::value_type value_type;
-    const V1& _v1; const V2& _v2;
-    SymmetricOuterProduct(const V1& v1, const V2& v2) : _v1(v1), _v2(v2) { }
-    value_type operator() (SizeType i, SizeType j) { return _v1[i]*_v2[j]+_v1[j]*_v2[i]; }
-};
-template<class V1, class V2> inline
-SymmetricOuterProduct<V1,V2>
-symmetric_outer_product(const V1& v1, const V2& v2) {
-    return SymmetricOuterProduct<V1,V2>(v1,v2);
-}
-
-template<class V1, class V2>
-struct OuterProduct
-    : public MatrixExpression< OuterProduct<V1,V2> >
-{
-    typedef typename V1::value_type value_type;
-    const V1& _v1; const V2& _v2;
-    OuterProduct(const V1& v1, const V2& v2) : _v1(v1), _v2(v2) { }
-    value_type operator() (SizeType i, SizeType j) { return _v1[i]*_v2[j]; }
-};
-template<class V1, class V2> inline
-OuterProduct<V1,V2>
-outer_product(const V1& v1, const V2& v2) {
-    return OuterProduct<V1,V2>(v1,v2);
-}
-
-/*
-template<class X>
-Matrix<X> outer(const Vector<X>& v1, const Vector<X>& v2) {
-    Matrix<X> r(v1.size(),v2.size());
-    for(SizeType i1=0; i1!=v1.size(); ++i1) {
-        for(SizeType i2=0; i2!=v2.size(); ++i2) {
-            r[i1][i2]=v1[i1]*v2[i2];
-        }
-    }
-    return r;
-}
-
-template<class X>
-Matrix<X> outer(const Vector<X>& v) {
-    return outer(v,v);
-}
-*/
-
-template<class X>
-Matrix<X> outer(const Covector<X>& u1, const Covector<X>& u2) {
-    Matrix<X> r(u1.size(),u2.size());
-    for(SizeType i1=0; i1!=u1.size(); ++i1) {
-        for(SizeType i2=0; i2!=u2.size(); ++i2) {
-            r[i1][i2]=u1[i1]*u2[i2];
-        }
-    }
-    return r;
-}
-
-template<class X>
-Matrix<X> outer(const Covector<X>& u) {
-    return outer(u,u);
-}
-
-template<class X> class FirstDifferential;
-template<class X> class SecondDifferential;
-
-template<class X> class FixedDifferentialCharacteristics {
-    SizeType _argument_size; X _zero_coefficient;
-  public:
-    template<class... PRS> requires Constructible<X,Nat,PRS...>
-        FixedDifferentialCharacteristics(SizeType as, PRS... prs) : _argument_size(as), _zero_coefficient(0u,prs...) { }
-    FixedDifferentialCharacteristics(SizeType as, X const& z) : _argument_size(as), _zero_coefficient(nul(z)) { }
-    FixedDifferentialCharacteristics(const FirstDifferential<X>& d);
-    FixedDifferentialCharacteristics(const SecondDifferential<X>& d);
-    SizeType argument_size() const { return this->_argument_size; }
-    X zero_coefficient() const { return this->_zero_coefficient; }
-};
-
-//! \ingroup DifferentiationModule
-//! \brief A class representing the partial derivatives of a scalar quantity
-//! depending on multiple arguments.
-//!
-//! Based on a power series Expansion, centred on the point at which the partial derivatives are
-//! being evaluated.
-//!
-//! \invariant The expansion is sorted using graded_sort(). In particular, the
-//! total degree of the terms is increasing, and the linear terms appear in coordinate order.
-template<class X>
-class FirstDifferential
-    : public DispatchTranscendentalAlgebraOperations<FirstDifferential<X>,X>
-    , public DispatchLatticeAlgebraOperations<FirstDifferential<X>,X>
-    , public ProvideConcreteGenericArithmeticOperations<FirstDifferential<X>>
-{
-  public:
-    X _value;
-    Covector<X> _gradient;
-  public:
-    //! \brief The type of used to represent numbers in the coefficient.
-    typedef typename X::NumericType NumericType;
-    //! \brief The type of used to represent the coefficients.
-    typedef X ValueType;
-
-    //! \brief Constructs a differential with degree one in \a as variables, and zero element based on \a prs.
-    template<class... PRS> requires Constructible<X,Nat,PRS...> explicit FirstDifferential(SizeType as, PRS... prs)
-        : FirstDifferential(as,X(0u,prs...)) { }
-
-    //! \brief Constructs a differential with degree one in \a as variables, initialising to the zero value z.
-    explicit FirstDifferential(SizeType as, const X& z) : _value(z), _gradient(as,z) { }
-
-    //! \brief Constructs a differential with degree zero in \a as variables. (Deprecated)
-    explicit FirstDifferential(const X& v, const Covector<X>& g) : _value(v), _gradient(g) { }
-
-    //! \brief Conversion constructor from a different numerical type.
-    template<class XX> FirstDifferential(const FirstDifferential<XX>& x)
-        : _value(x._value), _gradient(x._gradient) { }
-
-    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
-    FirstDifferential<X>& operator=(const X& c) { _value=c; X z(c); z=0; for(SizeType i=0; i!=_gradient.size(); ++i) { _gradient[i]=z; } return *this; }
-    template<AssignableTo<X> W>
-        FirstDifferential<X>& operator=(const W& c) { X xc=nul(this->value()); xc=c; return (*this)=xc; }
-
-    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
-    static FirstDifferential<X> constant(SizeType as, const X& c) {
-        FirstDifferential<X> r(as); r._value=c; return r; }
-    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
-    static FirstDifferential<X> variable(SizeType as, const X& v, SizeType j) {
-        FirstDifferential<X> r(as); r._value=v; r._gradient[j]=1; return r; }
-    //! \brief \brief A vector of differentials of degree \a deg in \a as arguments with values \f$c_i+x_i\f$.
-    static Vector< FirstDifferential<X> > variables(const Vector<X>& x) {
-        Vector< FirstDifferential<X> > result(x.size(),FirstDifferential<X>(x.size(),x.zero_element()));
-        for(SizeType j=0; j!=x.size(); ++j) { result[j]._value=x[j]; result[j]._gradient[j]=1; }
-        return result; }
-
-    //! \brief Equality operator.
-    friend EqualityType<X> operator==(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
-        return dx1._value==dx2._value && dx1._gradient==dx2._gradient; }
-
-    //! \brief Inequality operator.
-    friend InequalityType<X> operator!=(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
-        return !(dx1==dx2); }
-
-    //! \brief Comparison operator.
-    friend decltype(auto) operator>=(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
-        return dx1._value>=dx2._value; }
-    //! \brief Comparison operator.
-    friend decltype(auto) operator<=(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
-        return dx1._value<=dx2._value; }
-
-    //! \brief The number of independent variables.
-    SizeType argument_size() const { return this->_gradient.size(); }
-    //! \brief The maximum degree of the stored terms.
-    DegreeType degree() const { return 1u; }
-    //! \brief A zero with the precision argument of the numbers.
-    X zero_coefficient() const { X z=this->_value; z=0; return z; }
-    //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
-    const X& value() const { return this->_value; }
-    //! \brief The vector of coefficients of \f$x_j\f$.
-    const Covector<X>& gradient() const { return this->_gradient; }
-    //! \brief The vector of coefficients of \f$x_j\f$.
-    const X& gradient(SizeType j) const { return this->_gradient[j]; }
-
-
-    //! \brief A reference to the coefficient of \f$x_j\f$.
-    X& operator[](const SizeType& j) { return this->_gradient[j]; }
-    //! \brief The coefficient of \f$x_j\f$.
-    const X& operator[](const SizeType& j) const { return this->_gradient[j]; }
-    //! \brief The coefficient of \f$x^a\f$ i.e. \f$\prod x_j^{a_j}\f$.
-    const X& operator[](const MultiIndex& a) const {
-        ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
-        if(a.degree()==0) { return this->_value; }
-        else if(a.degree()==1) { for(SizeType j=0; j!=this->argument_size(); ++j) { if(a[j]==1) { return this->_gradient[j]; } } }
-        else { ARIADNE_ASSERT_MSG(a.degree()<=1u," d="<<*this<<", a="<<a); } }
-
-    //! \brief Set the coefficient of the constant term to \a c.
-    Void set_value(const X& c) { this->_value=c; }
-
-    //! \brief Set all coefficients to zero.
-    Void clear() { X z=this->_value; z=0; *this=z; }
-
-    friend FirstDifferential<X> compose(UnivariateFirstDifferential<X> const& df, FirstDifferential<X> dg) {
-        return _compose(df,dg); }
-
-    friend OutputStream& operator<<(OutputStream& os, FirstDifferential<X> df) {
-        return df._write(os); }
-
-  private:
-    static FirstDifferential<X> _compose(UnivariateFirstDifferential<X> const&, FirstDifferential<X>);
-    OutputStream& _write(OutputStream&) const;
-};
-
-template<class X> FirstDifferential<X> FirstDifferential<X>::_compose(UnivariateFirstDifferential<X> const& x, FirstDifferential<X> y) {
-    //d/dxi(f(g(x)) = f'(g(x)) dg(x)/dxi
-    //d2/dxi2(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxi + f'(g(x)) d2g(x)/dxi2
-    //d2/dxidxi(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxj + f'(g(x)) d2g(x)/dxidxj
-    y._gradient *= x.gradient();
-    y._value = x._value;
-    return y;
-}
-
-template<class X> OutputStream& FirstDifferential<X>::_write(OutputStream& os) const {
-    FirstDifferential<X>const& x=*this;
-    os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{ ";
-    os << x._value;
-    for(SizeType j=0; j!=x.argument_size(); ++j) {
-        os << (j==0?"; ":",") << j << ":" << x[j];
-    }
-    return os << " }";
-}
-
-
-template<class X> struct AlgebraOperations<FirstDifferential<X>,X> {
-
-    static FirstDifferential<X> apply(Pos, const FirstDifferential<X>& x) {
-        return FirstDifferential<X>(+x._value,+x._gradient); }
-    static FirstDifferential<X> apply(Neg, const FirstDifferential<X>& x) {
-        return FirstDifferential<X>(-x._value,-x._gradient); }
-
-    static FirstDifferential<X> apply(Add, FirstDifferential<X> x, const FirstDifferential<X>& y) {
-        x._value+=y._value; x._gradient+=y._gradient; return x; }
-    static FirstDifferential<X> apply(Sub, FirstDifferential<X> x, const FirstDifferential<X>& y) {
-        x._value-=y._value; x._gradient-=y._gradient; return x; }
-    static FirstDifferential<X> apply(Mul, const FirstDifferential<X>& x, const FirstDifferential<X>& y) {
-        return FirstDifferential<X>(x._value*y._value,x._value*y._gradient+y._value*x._gradient); }
-    static FirstDifferential<X> apply(Div, const FirstDifferential<X>& x, const FirstDifferential<X>& y) {
-        return FirstDifferential<X>(x._value/y._value,(x._gradient-(x._value/y._value)*y._gradient)/y._value); }
-
-    static FirstDifferential<X> apply(Add, FirstDifferential<X> x, const X& c) {
-        x._value+=c; return x; }
-    static FirstDifferential<X> apply(Sub, FirstDifferential<X> x, const X& c) {
-        x._value-=c; return x; }
-    static FirstDifferential<X> apply(Mul, FirstDifferential<X> x, const X& c) {
-        x._value*=c; x._gradient*=c; return x; }
-    static FirstDifferential<X> apply(Div, FirstDifferential<X> x, const X& c) {
-        x._value/=c; x._gradient/=c; return x; }
-
-
-    static FirstDifferential<X> apply(Min, const FirstDifferential<X>& x1, const FirstDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
-            ARIADNE_THROW(std::runtime_error,"min(FirstDifferential<X> x1, FirstDifferential<X> x2)","x1[0]==x2[0]"); }
-        return x1.value()<x2.value() ? x1 : x2; }
-    static FirstDifferential<X> apply(Max, const FirstDifferential<X>& x1,const FirstDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
-            ARIADNE_THROW(std::runtime_error,"max(FirstDifferential<X> x1, FirstDifferential<X> x2)","x1[0]==x2[0]"); }
-        return x1.value()>x2.value() ? x1 : x2; }
-    static FirstDifferential<X> apply(Abs, const FirstDifferential<X>& x) {
-        if(x.value()==0) {
-            ARIADNE_THROW(std::runtime_error,"abs(FirstDifferential<X> x)","x[0]==0"); }
-        return x.value()>0 ? pos(x) : neg(x); }
-
-    template<class OP> static FirstDifferential<X> apply(OP op, const FirstDifferential<X>& x) {
-        return compose(UnivariateFirstDifferential<X>(op,x._value),x); }
-
-
-    static FirstDifferential<X> apply(Rec, const FirstDifferential<X>& x) {
-        return FirstDifferential<X>( rec(x._value), x._gradient * (neg(sqr(rec(x._value)))) ); }
-
-    static FirstDifferential<X> apply(Sqr, const FirstDifferential<X>& x) {
-        return FirstDifferential<X>( sqr(x._value), (2*x._value)*x._gradient ); }
-
-    static FirstDifferential<X> apply(Pow, const FirstDifferential<X>& x, Int n) {
-        return FirstDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient ); }
-
-    static FirstDifferential<X> apply(Sqrt, const FirstDifferential<X>& x) {
-        X sqrt_val = sqrt(x._value); return FirstDifferential<X>( sqrt_val, rec(2*sqrt_val)*x._gradient ); }
-
-    static FirstDifferential<X> apply(Exp, const FirstDifferential<X>& x) {
-        X exp_val = exp(x._value); return FirstDifferential<X>( exp_val, exp_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Log, const FirstDifferential<X>& x) {
-        X log_val = log(x._value); X rec_val = rec(x._value); return FirstDifferential<X>( log_val, rec_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Sin, const FirstDifferential<X>& x) {
-        X sin_val = sin(x._value); X cos_val = cos(x._value); return FirstDifferential<X>( sin_val, cos_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Cos, const FirstDifferential<X>& x) {
-        X cos_val = cos(x._value); X neg_sin_val = neg(sin(x._value)); return FirstDifferential<X>( cos_val, neg_sin_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Tan, const FirstDifferential<X>& x) {
-        X tan_val = tan(x._value); X sqr_sec_val = sqr(rec(cos(x._value))); return FirstDifferential<X>( tan_val, sqr_sec_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Asin, const FirstDifferential<X>& x) {
-        X asin_val = asin(x._value); X d_asin_val = rec(sqrt(1.0-sqr(x._value))); return FirstDifferential<X>( asin_val, d_asin_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Acos, const FirstDifferential<X>& x) {
-        X acos_val = acos(x._value); X d_acos_val = neg(rec(sqrt(1.0-sqr(x._value)))); return FirstDifferential<X>( acos_val, d_acos_val*x._gradient ); }
-
-    static FirstDifferential<X> apply(Atan, const FirstDifferential<X>& x) {
-        X atan_val = atan(x._value); X d_atan_val = rec(1+sqr(x._value)); return FirstDifferential<X>( atan_val, d_atan_val*x._gradient ); }
-
-};
-
-
-
-
-
-
-
-
-
-/*! \brief A class representing the derivatives of a vector quantity depending on multiple arguments. */
-template<class X>
-class Vector< FirstDifferential<X> >
-    : public VectorExpression< Vector<FirstDifferential<X> > >
-{
-    //BOOST_CONCEPT_ASSERT((DifferentialVectorConcept<DifferentialVector<X> >));
-    FixedDifferentialCharacteristics<X> _chars;
-    Array< FirstDifferential<X> > _ary;
-  public:
-    // The type of the class
-    typedef Vector< FirstDifferential<X> > SelfType;
-    // The type used for accessing elements
-    typedef SizeType IndexType;
-    // The value stored in the vector.
-    typedef FirstDifferential<X> ValueType;
-    // The type used for scalars.
-    typedef X ScalarType;
-
-    Vector(SizeType rs, SizeType as) : _chars(as), _ary(rs, FirstDifferential<X>(as)) { }
-    Vector(SizeType rs, const FirstDifferential<X>& d) : _chars(d),  _ary(rs,d) {
-        for(SizeType i=0; i!=rs; ++i) { (*this)[i]=d; } }
-    Vector(SizeType rs, const FirstDifferential<X>* p) : _chars(p[0]), _ary(rs,FirstDifferential<X>(p[0].argument_size())) {
-        for(SizeType i=0; i!=rs; ++i) { (*this)[i]=p[i]; } }
-    Vector(const Array<FirstDifferential<X>>& ary) : _chars(ary[0]), _ary(ary) { }
-    template<class E> Vector(const VectorExpression<E>& ve);
-    template<class E> Vector< FirstDifferential<X> >& operator=(const VectorExpression<E>& ve);
-
-    SizeType result_size() const { return this->size(); }
-    SizeType argument_size() const { return this->_chars.argument_size(); }
-    DegreeType degree() const { return 1u; }
-
-    SizeType size() const { return this->_ary.size(); }
-    const FirstDifferential<X>& get(SizeType i) const { return _ary[i]; }
-    FirstDifferential<X>& at(SizeType i) { return _ary[i]; }
-    Void set(SizeType i, const FirstDifferential<X>& d) const { _ary[i]=d; }
-    const FirstDifferential<X>& operator[](SizeType i) const { return _ary[i]; }
-    FirstDifferential<X>& operator[](SizeType i) { return _ary[i]; }
-    const FirstDifferential<X> zero_element() const {
-        return FirstDifferential(this->argument_size(),_chars.zero_coefficient()); }
-    const Array<FirstDifferential<X>>& array() const { return _ary; }
-
-    VectorRange<const Vector<FirstDifferential<X>>> operator[](Range rng) const { return project(*this,rng); }
-
-    Vector<X> value() const {
-        Vector<X> r(this->result_size());
-        for(SizeType i=0; i!=r.size(); ++i) { r[i]=(*this)[i].value(); } return r; }
-    Matrix<X> jacobian() const { Matrix<X> r(this->result_size(),this->argument_size(),this->_chars.zero_coefficient());
-        for(SizeType i=0; i!=r.row_size(); ++i) { for(SizeType j=0; j!=r.column_size(); ++j) { r[i][j]=(*this)[i][j]; } } return r; }
-
-    friend Vector<X> value(Vector<FirstDifferential<X>> const& x) { return x.value(); }
-    friend Matrix<X> jacobian(Vector<FirstDifferential<X>> const& x) { return x.jacobian(); }
-
-};
-
-
-
-
-
-//! \ingroup DifferentiationModule
-//! \brief A class representing the partial derivatives of a scalar quantity
-//! depending on multiple arguments.
-//!
-//! Based on a power series Expansion, centred on the point at which the partial derivatives are
-//! being evaluated.
-//!
-//! \invariant The expansion is sorted using graded_sort(). In particular, the
-//! total degree of the terms is increasing, and the linear terms appear in coordinate order.
-template<class X>
-class SecondDifferential
-    : public DispatchTranscendentalAlgebraOperations<SecondDifferential<X>,X>
-    , public DispatchLatticeAlgebraOperations<SecondDifferential<X>,X>
-    , public ProvideConcreteGenericArithmeticOperations<SecondDifferential<X>>
-{
-  public:
-    X _value;
-    Covector<X> _gradient;
-    Matrix<X> _half_hessian;
-  public:
-    //! \brief The type of used to represent numbers in the coefficient.
-    typedef typename X::NumericType NumericType;
-    //! \brief The type of used to represent the coefficients.
-    typedef X ValueType;
-
-    //! \brief Constructs the zero second differential in \a as variables, with elements constructed from parameters \a prs.
-    template<class... PRS> requires Constructible<X,Nat,PRS...> explicit SecondDifferential(SizeType as, PRS... prs) : SecondDifferential<X>(as,X(0u,prs...)) { }
-
-    //! \brief Constructs a constant second differential in \a as variables with value \a c.
-    explicit SecondDifferential(SizeType as, const X& c) : _value(c), _gradient(as,nul(c)), _half_hessian(as,as,nul(c)) { }
-
-    //! \brief Constructs a second differential in \a as variables with value \a v and gradient \a g.
-    explicit SecondDifferential(const X& v, const Covector<X>& g) : _value(v), _gradient(g), _half_hessian(g.size(),g.size(),nul(v)) { }
-
-    //! \brief Constructs a differential with degree zero in \a as variables with value \a v, gradient \a g and hessian \a h.
-    //explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& h) : _value(v), _gradient(g), _half_hessian(h/2) {
-    //    ARIADNE_ASSERT_MSG(h.row_size()==g.size() && h.column_size()==g.size(), "SecondDifferential(v,g,h): v="<<v<<", g="<<g<<", h="<<h); }
-//    explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& half_h) : _value(v), _gradient(g), _half_hessian(half_h) {
-//        ARIADNE_ASSERT_MSG(half_h.row_size()==g.size() && half_h.column_size()==g.size(), "SecondDifferential(v,g,half_h): v="<<v<<", g="<<g<<", half_h="<<half_h); }
-
-    //! \brief Conversion constructor from a different numerical type.
-    template<class XX> SecondDifferential(const SecondDifferential<XX>& x)
-        : _value(x._value), _gradient(x._gradient), _half_hessian(x._half_hessian) { }
-
-    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
-    SecondDifferential<X>& operator=(const X& c) {
-        X z=c; z=0; _value=c; for(SizeType j=0; j!=this->argument_size(); ++j) { _gradient[j]=z;
-            for(SizeType k=0; k!=this->argument_size(); ++k) { _half_hessian[j][k]=z; } } return *this; }
-    template<AssignableTo<X> W>
-        SecondDifferential<X>& operator=(const W& c) { X xc=nul(this->value()); xc=c; return (*this)=xc; }
-
-    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
-    static SecondDifferential<X> constant(SizeType as, const X& c) {
-        SecondDifferential<X> r(as,c.precision()); r._value=c; return r; }
-    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
-    static SecondDifferential<X> variable(SizeType as, const X& v, SizeType j) {
-        SecondDifferential<X> r(as,v.precision()); r._value=v; r._gradient[j]=1; return r; }
-    //! \brief \brief A vector of differentials of degree \a deg in \a as arguments with values \f$c_i+x_i\f$.
-    static Vector< SecondDifferential<X> > variables(const Vector<X>& x) {
-        Vector< SecondDifferential<X> > result(x.size(),SecondDifferential<X>(x.size(),x.zero_element()));
-        for(SizeType j=0; j!=x.size(); ++j) { result[j]._value=x[j]; result[j]._gradient[j]=1; }
-        return result; }
-
-    //! \brief Equality operator.
-    EqualityType<X> operator==(const SecondDifferential<X>& other) const {
-        return this->_value==other._value && this->_gradient==other._gradient  && this->_half_hessian==other._half_hessian; }
-
-    //! \brief Inequality operator.
-    InequalityType<X> operator!=(const SecondDifferential<X>& other) const {
-        return !(*this==other); }
-
-    //! \brief The number of independent variables.
-    SizeType argument_size() const { return this->_gradient.size(); }
-    //! \brief The maximum degree of the stored terms.
-    DegreeType degree() const { return 2u; }
-    //! \brief A zero with the precision argument of the numbers.
-    X zero_coefficient() const { X z=this->_value; z=0; return z; }
-        //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
-    const X& value() const { return this->_value; }
-    //! \brief The vector of coefficients of \f$x_j\f$.
-    const Covector<X>& gradient() const { return this->_gradient; }
-    //! \brief The vector of coefficients of \f$x_j\f$.
-    const X& gradient(SizeType j) const { return this->_gradient[j]; }
-    //! \brief The Hessian matrix.
-    Matrix<X> hessian() const { return this->_half_hessian*2; }
-
-
-    //! \brief A reference to the coefficient of \f$x_j\f$.
-    X& operator[](const SizeType& j) { return this->_gradient[j]; }
-    //! \brief The coefficient of \f$x_j\f$.
-    const X& operator[](const SizeType& j) const { return this->_gradient[j]; }
-    //! \brief The coefficient of \f$x^a\f$ i.e. \f$\prod x_j^{a_j}\f$.
-    const X& operator[](const MultiIndex& a) const {
-        ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
-        if(a.degree()==0) {
-            return this->_value;
-        } else if(a.degree()==1) {
-            for(SizeType j=0; j!=this->argument_size(); ++j) { if(a[j]==1) { return this->_gradient[j]; } }
-        } else if(a.degree()==2) {
-            SizeType j1=0; while (a[j1]==0) { ++j1; }
-            SizeType j2=j1; if (a[j2]==1) { ++j2; while (a[j2]==0) { ++j2; } }
-            return this->_half_hessian[j1][j2];
-        } else {
-            ARIADNE_ASSERT_MSG(a.degree()<=2," d="<<*this<<", a="<<a);
-        }
-    }
-
-    //! \brief Set the coefficient of the constant term to \a c.
-    Void set_value(const X& c) { this->_value=c; }
-
-    //! \brief Set all coefficients to zero.
-    Void clear() { *this=0; }
-
-    friend SecondDifferential<X> compose(UnivariateSecondDifferential<X> const& df, SecondDifferential<X> dg) {
-        return _compose(df,dg); }
-    friend OutputStream& operator<<(OutputStream& os, SecondDifferential<X> df) {
-        return df._write(os); }
-
-  private: public:
-    explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& hh) : _value(v), _gradient(g), _half_hessian(hh) {
-        ARIADNE_ASSERT(hh.row_size()==g.size() && hh.column_size()==g.size()); }
-    explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& hh, SeriesTag) : _value(v), _gradient(g), _half_hessian(hh) {
-        ARIADNE_ASSERT(hh.row_size()==g.size() && hh.column_size()==g.size()); }
-
-    static SecondDifferential<X> _compose(UnivariateSecondDifferential<X> const&, SecondDifferential<X>);
-    OutputStream& _write(OutputStream&) const;
-};
-
-template<class X> SecondDifferential<X> SecondDifferential<X>::_compose(UnivariateSecondDifferential<X> const& x, SecondDifferential<X> y) {
-    //d/dxi(f(g(x)) = f'(g(x)) dg(x)/dxi
-    //d2/dxi2(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxi + f'(g(x)) d2g(x)/dxi2
-    //d2/dxidxi(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxj + f'(g(x)) d2g(x)/dxidxj
-    y._half_hessian *= x.gradient();
-    y._half_hessian += x.half_hessian()*outer(y._gradient);
-    y._gradient *= x.gradient();
-    y._value = x._value;
-    return y;
-}
-
-template<class X> OutputStream& SecondDifferential<X>::_write(OutputStream& os) const {
-    SecondDifferential<X> const& x = *this;
-    os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{";
-    os << x._value;
-    for(SizeType j=0; j!=x.argument_size(); ++j) {
-        os << (j==0?"; ":",") << j << ":" << x[j];
-    }
-    for(SizeType j=0; j!=x.argument_size(); ++j) {
-        for(SizeType k=0; k!=x.argument_size(); ++k) {
-            os << (j==0&&k==0?"; ":",") << j << "," << k << ":" << x._half_hessian[j][k];
-        }
-    }
-    return os << " }";
-}
-
-
-template<class X> struct AlgebraOperations<SecondDifferential<X>,X> {
-
-    static SecondDifferential<X> apply(Pos, const SecondDifferential<X>& x) {
-        return SecondDifferential<X>(+x._value,+x._gradient,+x._half_hessian); }
-    static SecondDifferential<X> apply(Neg, const SecondDifferential<X>& x) {
-        return SecondDifferential<X>(-x._value,-x._gradient,-x._half_hessian); }
-
-    static SecondDifferential<X> apply(Add, SecondDifferential<X> x, const SecondDifferential<X>& y) {
-        x._value += y._value; x._gradient += y._gradient; x._half_hessian += y._half_hessian; return x; }
-    static SecondDifferential<X> apply(Sub, SecondDifferential<X> x, const SecondDifferential<X>& y) {
-        x._value -= y._value; x._gradient -= y._gradient; x._half_hessian -= y._half_hessian; return x; }
-    static SecondDifferential<X> apply(Mul, SecondDifferential<X> x, const SecondDifferential<X>& y) {
-        x._half_hessian *= y._value;
-        x._half_hessian += x._value * y._half_hessian;
-        for(SizeType j=0; j!=x.argument_size(); ++j) { for(SizeType k=0; k!=x.argument_size(); ++k) {
-            x._half_hessian[j][k]+=(x._gradient[j]*y._gradient[k]+x._gradient[k]*y._gradient[j])/2; } }
-        x._gradient *= y._value;
-        x._gradient += x._value * y._gradient;
-        x._value *= y._value;
-        return x;
-    }
-    static SecondDifferential<X> apply(Div, const SecondDifferential<X>& x, SecondDifferential<X> y) {
-        return mul(x,rec(std::move(y))); }
-
-    static SecondDifferential<X> apply(Add, SecondDifferential<X> x, const X& c) {
-        x._value+=c; return x; }
-    static SecondDifferential<X> apply(Sub, SecondDifferential<X> x, const X& c) {
-        x._value-=c; return x; }
-    static SecondDifferential<X> apply(Mul, SecondDifferential<X> x, const X& c) {
-        x._value*=c; x._gradient*=c; x._half_hessian*=c; return x; }
-    static SecondDifferential<X> apply(Div, SecondDifferential<X> x, const X& c) {
-        x._value/=c; x._gradient/=c; x._half_hessian/=c; return x; }
-
-    static SecondDifferential<X> apply(Min, const SecondDifferential<X>& x1, const SecondDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
-        if(x1.value()==x2.value()) {
-            ARIADNE_THROW(std::runtime_error,"min(SecondDifferential<X> x1, SecondDifferential<X> x2)","x1[0]==x2[0]");
-        }
-        return x1.value()<x2.value() ? x1 : x2;
-    }
-    static SecondDifferential<X> apply(Max, const SecondDifferential<X>& x1,const SecondDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
-        if(x1.value()==x2.value()) {
-            ARIADNE_THROW(std::runtime_error,"max(SecondDifferential<X> x1, SecondDifferential<X> x2)","x1[0]==x2[0]");
-        }
-        return x1.value()>x2.value() ? x1 : x2;
-    }
-    static SecondDifferential<X> apply(Abs, const SecondDifferential<X>& x) {
-        if(x.value()==0) {
-            ARIADNE_THROW(std::runtime_error,"abs(SecondDifferential<X> x)","x[0]==0");
-        }
-        return x.value()>0 ? pos(x) : neg(x);
-    }
-
-    template<class OP> static SecondDifferential<X> apply(OP op, const SecondDifferential<X>& x) {
-        return compose(UnivariateSecondDifferential<X>(op,x.value(),x)); }
-
-    static SecondDifferential<X> apply(Rec, const SecondDifferential<X>& x) {
-        X rec_val = rec(x._value);
-        X neg_sqr_rec_val = neg(sqr(rec_val));
-        X cub_rec_val = -rec_val*neg_sqr_rec_val;
-        return SecondDifferential<X>( rec_val, neg_sqr_rec_val*x._gradient, neg_sqr_rec_val*x._half_hessian + cub_rec_val * outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Sqr, const SecondDifferential<X>& x) {
-        return SecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Pow, const SecondDifferential<X>& x, Int n) {
-        return SecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, (n*pow(x._value,n-1))*x._half_hessian + hlf(n*(n-1)*pow(x._value,n-2)) * outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Sqrt, const SecondDifferential<X>& x) {
-        X sqrt_val = sqrt(x._value);
-        X rec_dbl_sqrt_val = rec(2*sqrt_val);
-        X neg_rec_quad_pow_val = neg(rec(4*sqrt_val*x._value));
-        return SecondDifferential<X>( sqrt_val, rec_dbl_sqrt_val*x._gradient, rec_dbl_sqrt_val*x._half_hessian + hlf(neg_rec_quad_pow_val) * outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Exp, const SecondDifferential<X>& x) {
-        X exp_val = exp(x._value);
-        return SecondDifferential<X>( exp_val, exp_val*x._gradient, exp_val*x._half_hessian+hlf(exp_val)*outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Log, const SecondDifferential<X>& x) {
-        X log_val = log(x._value);
-        X rec_val = rec(x._value);
-        X neg_sqr_rec_val = neg(sqr(rec_val));
-        return SecondDifferential<X>( log_val, rec_val*x._gradient, rec_val*x._half_hessian+hlf(neg_sqr_rec_val)*outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Sin, const SecondDifferential<X>& x) {
-        X sin_val = sin(x._value);
-        X cos_val = cos(x._value);
-        X neg_sin_val = neg(sin_val);
-        return SecondDifferential<X>( sin_val, cos_val*x._gradient, cos_val*x._half_hessian+hlf(neg_sin_val)*outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Cos, const SecondDifferential<X>& x) {
-        X cos_val = cos(x._value);
-        X neg_sin_val = neg(sin(x._value));
-        X neg_cos_val = neg(cos_val);
-        return SecondDifferential<X>( cos_val, neg_sin_val*x._gradient, neg_sin_val*x._half_hessian+hlf(neg_cos_val)*outer(x._gradient), SeriesTag() );
-    }
-
-    static SecondDifferential<X> apply(Tan, const SecondDifferential<X>& x) {
-        X tan_val = tan(x._value);
-        X sqr_sec_val = sqr(rec(cos(x._value)));
-        X dbl_tan_sqr_sec_val = 2*tan_val*sqr_sec_val;
-        return SecondDifferential<X>( tan_val, sqr_sec_val*x._gradient, sqr_sec_val*x._half_hessian+hlf(dbl_tan_sqr_sec_val)*outer(x._gradient), SeriesTag() );
-    }
-
-};
-
-
-
-
-
-
-
-
-
-/*! \brief A class representing the derivatives of a vector quantity depending on multiple arguments. */
-template<class X>
-class Vector< SecondDifferential<X> >
-    : public VectorExpression< Vector<SecondDifferential<X> > >
-{
-    //BOOST_CONCEPT_ASSERT((DifferentialVectorConcept<DifferentialVector<X> >));
-    FixedDifferentialCharacteristics<X> _chars;
-    Array< SecondDifferential<X> > _ary;
-  public:
-    // The type of the class
-    typedef Vector< SecondDifferential<X> > SelfType;
-    // The type used for accessing elements
-    typedef SizeType IndexType;
-    // The value stored in the vector.
-    typedef SecondDifferential<X> ValueType;
-    // The type used for scalars.
-    typedef X ScalarType;
-
-    template<class... PRS> requires Constructible<X,Nat,PRS...> Vector(SizeType rs, SizeType as, PRS... prs)
-        : _chars(as,prs...), _ary(rs, SecondDifferential<X>(as,prs...)) { }
-    Vector(SizeType rs, const SecondDifferential<X>& d) : _chars(d), _ary(rs,d) { }
-    Vector(SizeType rs, const SecondDifferential<X>* p) : _chars(p[0]), _ary(rs,p) { }
-    Vector(const Array<SecondDifferential<X>>& ary) : _chars(ary[0]), _ary(ary) { }
-    template<class E> Vector(const VectorExpression<E>& ve);
-    template<class E> Vector< SecondDifferential<X> >& operator=(const VectorExpression<E>& ve);
-
-
-    SizeType result_size() const { return this->size(); }
-    SizeType argument_size() const { return this->_chars.argument_size(); }
-    DegreeType degree() const { return 1u; }
-    SecondDifferential<X> zero_element() const {
-        return SecondDifferential<X>(this->argument_size(),this->_chars.zero_coefficient()); }
-    const Array<SecondDifferential<X>>& array() const { return _ary; }
-
-    SizeType size() const { return this->_ary.size(); }
-    const SecondDifferential<X>& get(SizeType i) const { return _ary[i]; }
-    SecondDifferential<X>& at(SizeType i) { return _ary[i]; }
-    Void set(SizeType i, const SecondDifferential<X>& d) const { _ary[i]=d; }
-    const SecondDifferential<X>& operator[](SizeType i) const { return _ary[i]; }
-    SecondDifferential<X>& operator[](SizeType i) { return _ary[i]; }
-
-    VectorRange<const Vector<SecondDifferential<X>>> operator[](Range rng) const { return project(*this,rng); }
-
-    Vector<X> value() const {
-        Vector<X> r(this->result_size());
-        for(SizeType i=0; i!=r.size(); ++i) { r[i]=(*this)[i].value(); } return r; }
-    Matrix<X> jacobian() const { Matrix<X> r(this->result_size(),this->argument_size(),this->_chars.zero_coefficient());
-        for(SizeType i=0; i!=r.row_size(); ++i) { for(SizeType j=0; j!=r.column_size(); ++j) { r[i][j]=(*this)[i].gradient(j); } } return r; }
-
-    friend Vector<X> value(const Vector<SecondDifferential<X>>& x) { return x.value(); }
-    friend Matrix<X> jacobian(const Vector<SecondDifferential<X>>& x) { return x.jacobian(); }
-};
-
-
-template<class X> inline FixedDifferentialCharacteristics<X>::FixedDifferentialCharacteristics(FirstDifferential<X> const& dx)
-    : _argument_size(dx.argument_size()), _zero_coefficient(dx.zero_coefficient())
-{ }
-
-template<class X> inline FixedDifferentialCharacteristics<X>::FixedDifferentialCharacteristics(SecondDifferential<X> const& dx)
-    : _argument_size(dx.argument_size()), _zero_coefficient(dx.zero_coefficient())
-{ }
-
-
-template<class X> class FixedDifferentialFactory {
-    typedef PrecisionType<X> PR;
-    PR _pr;
-  public:
-    FixedDifferentialFactory(PR const& pr) : _pr(pr) { }
-    template<class Y> requires Constructible<X,Y,PR> X create(Y const& y) { return X(y,_pr); }
-    template<class Y> FirstDifferential<X> create(FirstDifferential<Y> const&);
-    template<class Y> SecondDifferential<X> create(SecondDifferential<Y> const&);
-};
-template<class X> inline FixedDifferentialFactory<X> differential_factory(X const& x) {
-    return FixedDifferentialFactory<X>(x.precision()); }
-template<class X> inline FixedDifferentialFactory<X> factory(FirstDifferential<X> const& dx) {
-    return FixedDifferentialFactory<X>(dx.value().precision()); }
-template<class X> inline FixedDifferentialFactory<X> factory(SecondDifferential<X> const& dx) {
-    return FixedDifferentialFactory<X>(dx.value().precision()); }
-
-
-
-
-} //namespace Ariadne
-
-#endif // ARIADNE_FIXED_DIFFERENTIAL_HPP
+/***************************************************************************
+ *            algebra/fixed_differential.hpp
+ *
+ *  Copyright  2011-20  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+/*! \file algebra/fixed_differential.hpp
+ *  \brief First- and second-order multivariate differentials.
+ */
+
+#ifndef ARIADNE_FIXED_DIFFERENTIAL_HPP
+#define ARIADNE_FIXED_DIFFERENTIAL_HPP
+
+#include <map>
+
+#include "utility/macros.hpp"
+#include "utility/array.hpp"
+#include "algebra/vector.hpp"
+#include "algebra/matrix.hpp"
+#include "algebra/series.hpp"
+#include "algebra/expansion.hpp"
+#include "algebra/operations.hpp"
+
+#include "algebra/fixed_univariate_differential.hpp"
+
+namespace Ariadne {
+
+template<class X> class Vector;
+template<class X> class Matrix;
+template<class X> class Series;
+
+struct SeriesTag { };
+
+template<class X> class SecondDifferential;
+
+template<class V1, class V2>
+struct SymmetricOuterProduct
+    : public MatrixExpression< SymmetricOuterProduct<V1,V2> >
+{
+    typedef typename V1::value_type value_type;
+    const V1& _v1; const V2& _v2;
+    SymmetricOuterProduct(const V1& v1, const V2& v2) : _v1(v1), _v2(v2) { }
+    value_type operator() (SizeType i, SizeType j) { return _v1[i]*_v2[j]+_v1[j]*_v2[i]; }
+};
+template<class V1, class V2> inline
+SymmetricOuterProduct<V1,V2>
+symmetric_outer_product(const V1& v1, const V2& v2) {
+    return SymmetricOuterProduct<V1,V2>(v1,v2);
+}
+
+template<class V1, class V2>
+struct OuterProduct
+    : public MatrixExpression< OuterProduct<V1,V2> >
+{
+    typedef typename V1::value_type value_type;
+    const V1& _v1; const V2& _v2;
+    OuterProduct(const V1& v1, const V2& v2) : _v1(v1), _v2(v2) { }
+    value_type operator() (SizeType i, SizeType j) { return _v1[i]*_v2[j]; }
+};
+template<class V1, class V2> inline
+OuterProduct<V1,V2>
+outer_product(const V1& v1, const V2& v2) {
+    return OuterProduct<V1,V2>(v1,v2);
+}
+
+/*
+template<class X>
+Matrix<X> outer(const Vector<X>& v1, const Vector<X>& v2) {
+    Matrix<X> r(v1.size(),v2.size());
+    for(SizeType i1=0; i1!=v1.size(); ++i1) {
+        for(SizeType i2=0; i2!=v2.size(); ++i2) {
+            r[i1][i2]=v1[i1]*v2[i2];
+        }
+    }
+    return r;
+}
+
+template<class X>
+Matrix<X> outer(const Vector<X>& v) {
+    return outer(v,v);
+}
+*/
+
+template<class X>
+Matrix<X> outer(const Covector<X>& u1, const Covector<X>& u2) {
+    Matrix<X> r(u1.size(),u2.size());
+    for(SizeType i1=0; i1!=u1.size(); ++i1) {
+        for(SizeType i2=0; i2!=u2.size(); ++i2) {
+            r[i1][i2]=u1[i1]*u2[i2];
+        }
+    }
+    return r;
+}
+
+template<class X>
+Matrix<X> outer(const Covector<X>& u) {
+    return outer(u,u);
+}
+
+template<class X> class FirstDifferential;
+template<class X> class SecondDifferential;
+
+template<class X> class FixedDifferentialCharacteristics {
+    SizeType _argument_size; X _zero_coefficient;
+  public:
+    template<class... PRS> requires Constructible<X,Nat,PRS...>
+        FixedDifferentialCharacteristics(SizeType as, PRS... prs) : _argument_size(as), _zero_coefficient(0u,prs...) { }
+    FixedDifferentialCharacteristics(SizeType as, X const& z) : _argument_size(as), _zero_coefficient(nul(z)) { }
+    FixedDifferentialCharacteristics(const FirstDifferential<X>& d);
+    FixedDifferentialCharacteristics(const SecondDifferential<X>& d);
+    SizeType argument_size() const { return this->_argument_size; }
+    X zero_coefficient() const { return this->_zero_coefficient; }
+};
+
+//! \ingroup DifferentiationModule
+//! \brief A class representing the partial derivatives of a scalar quantity
+//! depending on multiple arguments.
+//!
+//! Based on a power series Expansion, centred on the point at which the partial derivatives are
+//! being evaluated.
+//!
+//! \invariant The expansion is sorted using graded_sort(). In particular, the
+//! total degree of the terms is increasing, and the linear terms appear in coordinate order.
+template<class X>
+class FirstDifferential
+    : public DispatchTranscendentalAlgebraOperations<FirstDifferential<X>,X>
+    , public DispatchLatticeAlgebraOperations<FirstDifferential<X>,X>
+    , public ProvideConcreteGenericArithmeticOperations<FirstDifferential<X>>
+{
+  public:
+    X _value;
+    Covector<X> _gradient;
+  public:
+    //! \brief The type of used to represent numbers in the coefficient.
+    typedef typename X::NumericType NumericType;
+    //! \brief The type of used to represent the coefficients.
+    typedef X ValueType;
+
+    //! \brief Constructs a differential with degree one in \a as variables, and zero element based on \a prs.
+    template<class... PRS> requires Constructible<X,Nat,PRS...> explicit FirstDifferential(SizeType as, PRS... prs)
+        : FirstDifferential(as,X(0u,prs...)) { }
+
+    //! \brief Constructs a differential with degree one in \a as variables, initialising to the zero value z.
+    explicit FirstDifferential(SizeType as, const X& z) : _value(z), _gradient(as,z) { }
+
+    //! \brief Constructs a differential with degree zero in \a as variables. (Deprecated)
+    explicit FirstDifferential(const X& v, const Covector<X>& g) : _value(v), _gradient(g) { }
+
+    //! \brief Conversion constructor from a different numerical type.
+    template<class XX> FirstDifferential(const FirstDifferential<XX>& x)
+        : _value(x._value), _gradient(x._gradient) { }
+
+    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
+    FirstDifferential<X>& operator=(const X& c) { _value=c; X z(c); z=0; for(SizeType i=0; i!=_gradient.size(); ++i) { _gradient[i]=z; } return *this; }
+    template<AssignableTo<X> W>
+        FirstDifferential<X>& operator=(const W& c) { X xc=nul(this->value()); xc=c; return (*this)=xc; }
+
+    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
+    static FirstDifferential<X> constant(SizeType as, const X& c) {
+        FirstDifferential<X> r(as); r._value=c; return r; }
+    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
+    static FirstDifferential<X> variable(SizeType as, const X& v, SizeType j) {
+        FirstDifferential<X> r(as); r._value=v; r._gradient[j]=1; return r; }
+    //! \brief \brief A vector of differentials of degree \a deg in \a as arguments with values \f$c_i+x_i\f$.
+    static Vector< FirstDifferential<X> > variables(const Vector<X>& x) {
+        Vector< FirstDifferential<X> > result(x.size(),FirstDifferential<X>(x.size(),x.zero_element()));
+        for(SizeType j=0; j!=x.size(); ++j) { result[j]._value=x[j]; result[j]._gradient[j]=1; }
+        return result; }
+
+    //! \brief Equality operator.
+    friend EqualityType<X> operator==(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
+        return dx1._value==dx2._value && dx1._gradient==dx2._gradient; }
+
+    //! \brief Inequality operator.
+    friend InequalityType<X> operator!=(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
+        return !(dx1==dx2); }
+
+    //! \brief Comparison operator.
+    friend decltype(auto) operator>=(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
+        return dx1._value>=dx2._value; }
+    //! \brief Comparison operator.
+    friend decltype(auto) operator<=(const FirstDifferential<X>& dx1, const FirstDifferential<X>& dx2) {
+        return dx1._value<=dx2._value; }
+
+    //! \brief The number of independent variables.
+    SizeType argument_size() const { return this->_gradient.size(); }
+    //! \brief The maximum degree of the stored terms.
+    DegreeType degree() const { return 1u; }
+    //! \brief A zero with the precision argument of the numbers.
+    X zero_coefficient() const { X z=this->_value; z=0; return z; }
+    //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
+    const X& value() const { return this->_value; }
+    //! \brief The vector of coefficients of \f$x_j\f$.
+    const Covector<X>& gradient() const { return this->_gradient; }
+    //! \brief The vector of coefficients of \f$x_j\f$.
+    const X& gradient(SizeType j) const { return this->_gradient[j]; }
+
+
+    //! \brief A reference to the coefficient of \f$x_j\f$.
+    X& operator[](const SizeType& j) { return this->_gradient[j]; }
+    //! \brief The coefficient of \f$x_j\f$.
+    const X& operator[](const SizeType& j) const { return this->_gradient[j]; }
+    //! \brief The coefficient of \f$x^a\f$ i.e. \f$\prod x_j^{a_j}\f$.
+    const X& operator[](const MultiIndex& a) const {
+        ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
+        if(a.degree()==0) { return this->_value; }
+        else if(a.degree()==1) { for(SizeType j=0; j!=this->argument_size(); ++j) { if(a[j]==1) { return this->_gradient[j]; } } }
+        else { ARIADNE_ASSERT_MSG(a.degree()<=1u," d="<<*this<<", a="<<a); } }
+
+    //! \brief Set the coefficient of the constant term to \a c.
+    Void set_value(const X& c) { this->_value=c; }
+
+    //! \brief Set all coefficients to zero.
+    Void clear() { X z=this->_value; z=0; *this=z; }
+
+    friend FirstDifferential<X> compose(UnivariateFirstDifferential<X> const& df, FirstDifferential<X> dg) {
+        return _compose(df,dg); }
+
+    friend OutputStream& operator<<(OutputStream& os, FirstDifferential<X> df) {
+        return df._write(os); }
+
+  private:
+    static FirstDifferential<X> _compose(UnivariateFirstDifferential<X> const&, FirstDifferential<X>);
+    OutputStream& _write(OutputStream&) const;
+};
+
+template<class X> FirstDifferential<X> FirstDifferential<X>::_compose(UnivariateFirstDifferential<X> const& x, FirstDifferential<X> y) {
+    //d/dxi(f(g(x)) = f'(g(x)) dg(x)/dxi
+    //d2/dxi2(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxi + f'(g(x)) d2g(x)/dxi2
+    //d2/dxidxi(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxj + f'(g(x)) d2g(x)/dxidxj
+    y._gradient *= x.gradient();
+    y._value = x._value;
+    return y;
+}
+
+template<class X> OutputStream& FirstDifferential<X>::_write(OutputStream& os) const {
+    FirstDifferential<X>const& x=*this;
+    os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{ ";
+    os << x._value;
+    for(SizeType j=0; j!=x.argument_size(); ++j) {
+        os << (j==0?"; ":",") << j << ":" << x[j];
+    }
+    return os << " }";
+}
+
+
+template<class X> struct AlgebraOperations<FirstDifferential<X>,X> {
+
+    static FirstDifferential<X> apply(Pos, const FirstDifferential<X>& x) {
+        return FirstDifferential<X>(+x._value,+x._gradient); }
+    static FirstDifferential<X> apply(Neg, const FirstDifferential<X>& x) {
+        return FirstDifferential<X>(-x._value,-x._gradient); }
+
+    static FirstDifferential<X> apply(Add, FirstDifferential<X> x, const FirstDifferential<X>& y) {
+        x._value+=y._value; x._gradient+=y._gradient; return x; }
+    static FirstDifferential<X> apply(Sub, FirstDifferential<X> x, const FirstDifferential<X>& y) {
+        x._value-=y._value; x._gradient-=y._gradient; return x; }
+    static FirstDifferential<X> apply(Mul, const FirstDifferential<X>& x, const FirstDifferential<X>& y) {
+        return FirstDifferential<X>(x._value*y._value,x._value*y._gradient+y._value*x._gradient); }
+    static FirstDifferential<X> apply(Div, const FirstDifferential<X>& x, const FirstDifferential<X>& y) {
+        return FirstDifferential<X>(x._value/y._value,(x._gradient-(x._value/y._value)*y._gradient)/y._value); }
+
+    static FirstDifferential<X> apply(Add, FirstDifferential<X> x, const X& c) {
+        x._value+=c; return x; }
+    static FirstDifferential<X> apply(Sub, FirstDifferential<X> x, const X& c) {
+        x._value-=c; return x; }
+    static FirstDifferential<X> apply(Mul, FirstDifferential<X> x, const X& c) {
+        x._value*=c; x._gradient*=c; return x; }
+    static FirstDifferential<X> apply(Div, FirstDifferential<X> x, const X& c) {
+        x._value/=c; x._gradient/=c; return x; }
+
+
+    static FirstDifferential<X> apply(Min, const FirstDifferential<X>& x1, const FirstDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
+            ARIADNE_THROW(std::runtime_error,"min(FirstDifferential<X> x1, FirstDifferential<X> x2)","x1[0]==x2[0]"); }
+        return x1.value()<x2.value() ? x1 : x2; }
+    static FirstDifferential<X> apply(Max, const FirstDifferential<X>& x1,const FirstDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
+            ARIADNE_THROW(std::runtime_error,"max(FirstDifferential<X> x1, FirstDifferential<X> x2)","x1[0]==x2[0]"); }
+        return x1.value()>x2.value() ? x1 : x2; }
+    static FirstDifferential<X> apply(Abs, const FirstDifferential<X>& x) {
+        if(x.value()==0) {
+            ARIADNE_THROW(std::runtime_error,"abs(FirstDifferential<X> x)","x[0]==0"); }
+        return x.value()>0 ? pos(x) : neg(x); }
+
+    template<class OP> static FirstDifferential<X> apply(OP op, const FirstDifferential<X>& x) {
+        return compose(UnivariateFirstDifferential<X>(op,x._value),x); }
+
+
+    static FirstDifferential<X> apply(Rec, const FirstDifferential<X>& x) {
+        return FirstDifferential<X>( rec(x._value), x._gradient * (neg(sqr(rec(x._value)))) ); }
+
+    static FirstDifferential<X> apply(Sqr, const FirstDifferential<X>& x) {
+        return FirstDifferential<X>( sqr(x._value), (2*x._value)*x._gradient ); }
+
+    static FirstDifferential<X> apply(Pow, const FirstDifferential<X>& x, Int n) {
+        return FirstDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient ); }
+
+    static FirstDifferential<X> apply(Sqrt, const FirstDifferential<X>& x) {
+        X sqrt_val = sqrt(x._value); return FirstDifferential<X>( sqrt_val, rec(2*sqrt_val)*x._gradient ); }
+
+    static FirstDifferential<X> apply(Exp, const FirstDifferential<X>& x) {
+        X exp_val = exp(x._value); return FirstDifferential<X>( exp_val, exp_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Log, const FirstDifferential<X>& x) {
+        X log_val = log(x._value); X rec_val = rec(x._value); return FirstDifferential<X>( log_val, rec_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Sin, const FirstDifferential<X>& x) {
+        X sin_val = sin(x._value); X cos_val = cos(x._value); return FirstDifferential<X>( sin_val, cos_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Cos, const FirstDifferential<X>& x) {
+        X cos_val = cos(x._value); X neg_sin_val = neg(sin(x._value)); return FirstDifferential<X>( cos_val, neg_sin_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Tan, const FirstDifferential<X>& x) {
+        X tan_val = tan(x._value); X sqr_sec_val = sqr(rec(cos(x._value))); return FirstDifferential<X>( tan_val, sqr_sec_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Asin, const FirstDifferential<X>& x) {
+        X asin_val = asin(x._value); X d_asin_val = rec(sqrt(1.0-sqr(x._value))); return FirstDifferential<X>( asin_val, d_asin_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Acos, const FirstDifferential<X>& x) {
+        X acos_val = acos(x._value); X d_acos_val = neg(rec(sqrt(1.0-sqr(x._value)))); return FirstDifferential<X>( acos_val, d_acos_val*x._gradient ); }
+
+    static FirstDifferential<X> apply(Atan, const FirstDifferential<X>& x) {
+        X atan_val = atan(x._value); X d_atan_val = rec(1+sqr(x._value)); return FirstDifferential<X>( atan_val, d_atan_val*x._gradient ); }
+
+};
+
+
+
+
+
+
+
+
+
+/*! \brief A class representing the derivatives of a vector quantity depending on multiple arguments. */
+template<class X>
+class Vector< FirstDifferential<X> >
+    : public VectorExpression< Vector<FirstDifferential<X> > >
+{
+    //BOOST_CONCEPT_ASSERT((DifferentialVectorConcept<DifferentialVector<X> >));
+    FixedDifferentialCharacteristics<X> _chars;
+    Array< FirstDifferential<X> > _ary;
+  public:
+    // The type of the class
+    typedef Vector< FirstDifferential<X> > SelfType;
+    // The type used for accessing elements
+    typedef SizeType IndexType;
+    // The value stored in the vector.
+    typedef FirstDifferential<X> ValueType;
+    // The type used for scalars.
+    typedef X ScalarType;
+
+    Vector(SizeType rs, SizeType as) : _chars(as), _ary(rs, FirstDifferential<X>(as)) { }
+    Vector(SizeType rs, const FirstDifferential<X>& d) : _chars(d),  _ary(rs,d) {
+        for(SizeType i=0; i!=rs; ++i) { (*this)[i]=d; } }
+    Vector(SizeType rs, const FirstDifferential<X>* p) : _chars(p[0]), _ary(rs,FirstDifferential<X>(p[0].argument_size())) {
+        for(SizeType i=0; i!=rs; ++i) { (*this)[i]=p[i]; } }
+    Vector(const Array<FirstDifferential<X>>& ary) : _chars(ary[0]), _ary(ary) { }
+    template<class E> Vector(const VectorExpression<E>& ve);
+    template<class E> Vector< FirstDifferential<X> >& operator=(const VectorExpression<E>& ve);
+
+    SizeType result_size() const { return this->size(); }
+    SizeType argument_size() const { return this->_chars.argument_size(); }
+    DegreeType degree() const { return 1u; }
+
+    SizeType size() const { return this->_ary.size(); }
+    const FirstDifferential<X>& get(SizeType i) const { return _ary[i]; }
+    FirstDifferential<X>& at(SizeType i) { return _ary[i]; }
+    Void set(SizeType i, const FirstDifferential<X>& d) const { _ary[i]=d; }
+    const FirstDifferential<X>& operator[](SizeType i) const { return _ary[i]; }
+    FirstDifferential<X>& operator[](SizeType i) { return _ary[i]; }
+    const FirstDifferential<X> zero_element() const {
+        return FirstDifferential(this->argument_size(),_chars.zero_coefficient()); }
+    const Array<FirstDifferential<X>>& array() const { return _ary; }
+
+    VectorRange<const Vector<FirstDifferential<X>>> operator[](Range rng) const { return project(*this,rng); }
+
+    Vector<X> value() const {
+        Vector<X> r(this->result_size());
+        for(SizeType i=0; i!=r.size(); ++i) { r[i]=(*this)[i].value(); } return r; }
+    Matrix<X> jacobian() const { Matrix<X> r(this->result_size(),this->argument_size(),this->_chars.zero_coefficient());
+        for(SizeType i=0; i!=r.row_size(); ++i) { for(SizeType j=0; j!=r.column_size(); ++j) { r[i][j]=(*this)[i][j]; } } return r; }
+
+    friend Vector<X> value(Vector<FirstDifferential<X>> const& x) { return x.value(); }
+    friend Matrix<X> jacobian(Vector<FirstDifferential<X>> const& x) { return x.jacobian(); }
+
+};
+
+
+
+
+
+//! \ingroup DifferentiationModule
+//! \brief A class representing the partial derivatives of a scalar quantity
+//! depending on multiple arguments.
+//!
+//! Based on a power series Expansion, centred on the point at which the partial derivatives are
+//! being evaluated.
+//!
+//! \invariant The expansion is sorted using graded_sort(). In particular, the
+//! total degree of the terms is increasing, and the linear terms appear in coordinate order.
+template<class X>
+class SecondDifferential
+    : public DispatchTranscendentalAlgebraOperations<SecondDifferential<X>,X>
+    , public DispatchLatticeAlgebraOperations<SecondDifferential<X>,X>
+    , public ProvideConcreteGenericArithmeticOperations<SecondDifferential<X>>
+{
+  public:
+    X _value;
+    Covector<X> _gradient;
+    Matrix<X> _half_hessian;
+  public:
+    //! \brief The type of used to represent numbers in the coefficient.
+    typedef typename X::NumericType NumericType;
+    //! \brief The type of used to represent the coefficients.
+    typedef X ValueType;
+
+    //! \brief Constructs the zero second differential in \a as variables, with elements constructed from parameters \a prs.
+    template<class... PRS> requires Constructible<X,Nat,PRS...> explicit SecondDifferential(SizeType as, PRS... prs) : SecondDifferential<X>(as,X(0u,prs...)) { }
+
+    //! \brief Constructs a constant second differential in \a as variables with value \a c.
+    explicit SecondDifferential(SizeType as, const X& c) : _value(c), _gradient(as,nul(c)), _half_hessian(as,as,nul(c)) { }
+
+    //! \brief Constructs a second differential in \a as variables with value \a v and gradient \a g.
+    explicit SecondDifferential(const X& v, const Covector<X>& g) : _value(v), _gradient(g), _half_hessian(g.size(),g.size(),nul(v)) { }
+
+    //! \brief Constructs a differential with degree zero in \a as variables with value \a v, gradient \a g and hessian \a h.
+    //explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& h) : _value(v), _gradient(g), _half_hessian(h/2) {
+    //    ARIADNE_ASSERT_MSG(h.row_size()==g.size() && h.column_size()==g.size(), "SecondDifferential(v,g,h): v="<<v<<", g="<<g<<", h="<<h); }
+//    explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& half_h) : _value(v), _gradient(g), _half_hessian(half_h) {
+//        ARIADNE_ASSERT_MSG(half_h.row_size()==g.size() && half_h.column_size()==g.size(), "SecondDifferential(v,g,half_h): v="<<v<<", g="<<g<<", half_h="<<half_h); }
+
+    //! \brief Conversion constructor from a different numerical type.
+    template<class XX> SecondDifferential(const SecondDifferential<XX>& x)
+        : _value(x._value), _gradient(x._gradient), _half_hessian(x._half_hessian) { }
+
+    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
+    SecondDifferential<X>& operator=(const X& c) {
+        X z=c; z=0; _value=c; for(SizeType j=0; j!=this->argument_size(); ++j) { _gradient[j]=z;
+            for(SizeType k=0; k!=this->argument_size(); ++k) { _half_hessian[j][k]=z; } } return *this; }
+    template<AssignableTo<X> W>
+        SecondDifferential<X>& operator=(const W& c) { X xc=nul(this->value()); xc=c; return (*this)=xc; }
+
+    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
+    static SecondDifferential<X> constant(SizeType as, const X& c) {
+        SecondDifferential<X> r(as,c.precision()); r._value=c; return r; }
+    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
+    static SecondDifferential<X> variable(SizeType as, const X& v, SizeType j) {
+        SecondDifferential<X> r(as,v.precision()); r._value=v; r._gradient[j]=1; return r; }
+    //! \brief \brief A vector of differentials of degree \a deg in \a as arguments with values \f$c_i+x_i\f$.
+    static Vector< SecondDifferential<X> > variables(const Vector<X>& x) {
+        Vector< SecondDifferential<X> > result(x.size(),SecondDifferential<X>(x.size(),x.zero_element()));
+        for(SizeType j=0; j!=x.size(); ++j) { result[j]._value=x[j]; result[j]._gradient[j]=1; }
+        return result; }
+
+    //! \brief Equality operator.
+    EqualityType<X> operator==(const SecondDifferential<X>& other) const {
+        return this->_value==other._value && this->_gradient==other._gradient  && this->_half_hessian==other._half_hessian; }
+
+    //! \brief Inequality operator.
+    InequalityType<X> operator!=(const SecondDifferential<X>& other) const {
+        return !(*this==other); }
+
+    //! \brief The number of independent variables.
+    SizeType argument_size() const { return this->_gradient.size(); }
+    //! \brief The maximum degree of the stored terms.
+    DegreeType degree() const { return 2u; }
+    //! \brief A zero with the precision argument of the numbers.
+    X zero_coefficient() const { X z=this->_value; z=0; return z; }
+        //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
+    const X& value() const { return this->_value; }
+    //! \brief The vector of coefficients of \f$x_j\f$.
+    const Covector<X>& gradient() const { return this->_gradient; }
+    //! \brief The vector of coefficients of \f$x_j\f$.
+    const X& gradient(SizeType j) const { return this->_gradient[j]; }
+    //! \brief The Hessian matrix.
+    Matrix<X> hessian() const { return this->_half_hessian*2; }
+
+
+    //! \brief A reference to the coefficient of \f$x_j\f$.
+    X& operator[](const SizeType& j) { return this->_gradient[j]; }
+    //! \brief The coefficient of \f$x_j\f$.
+    const X& operator[](const SizeType& j) const { return this->_gradient[j]; }
+    //! \brief The coefficient of \f$x^a\f$ i.e. \f$\prod x_j^{a_j}\f$.
+    const X& operator[](const MultiIndex& a) const {
+        ARIADNE_ASSERT_MSG(a.number_of_variables()==this->argument_size()," d="<<*this<<", a="<<a);
+        if(a.degree()==0) {
+            return this->_value;
+        } else if(a.degree()==1) {
+            for(SizeType j=0; j!=this->argument_size(); ++j) { if(a[j]==1) { return this->_gradient[j]; } }
+        } else if(a.degree()==2) {
+            SizeType j1=0; while (a[j1]==0) { ++j1; }
+            SizeType j2=j1; if (a[j2]==1) { ++j2; while (a[j2]==0) { ++j2; } }
+            return this->_half_hessian[j1][j2];
+        } else {
+            ARIADNE_ASSERT_MSG(a.degree()<=2," d="<<*this<<", a="<<a);
+        }
+    }
+
+    //! \brief Set the coefficient of the constant term to \a c.
+    Void set_value(const X& c) { this->_value=c; }
+
+    //! \brief Set all coefficients to zero.
+    Void clear() { *this=0; }
+
+    friend SecondDifferential<X> compose(UnivariateSecondDifferential<X> const& df, SecondDifferential<X> dg) {
+        return _compose(df,dg); }
+    friend OutputStream& operator<<(OutputStream& os, SecondDifferential<X> df) {
+        return df._write(os); }
+
+  private: public:
+    explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& hh) : _value(v), _gradient(g), _half_hessian(hh) {
+        ARIADNE_ASSERT(hh.row_size()==g.size() && hh.column_size()==g.size()); }
+    explicit SecondDifferential(const X& v, const Covector<X>& g, const Matrix<X>& hh, SeriesTag) : _value(v), _gradient(g), _half_hessian(hh) {
+        ARIADNE_ASSERT(hh.row_size()==g.size() && hh.column_size()==g.size()); }
+
+    static SecondDifferential<X> _compose(UnivariateSecondDifferential<X> const&, SecondDifferential<X>);
+    OutputStream& _write(OutputStream&) const;
+};
+
+template<class X> SecondDifferential<X> SecondDifferential<X>::_compose(UnivariateSecondDifferential<X> const& x, SecondDifferential<X> y) {
+    //d/dxi(f(g(x)) = f'(g(x)) dg(x)/dxi
+    //d2/dxi2(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxi + f'(g(x)) d2g(x)/dxi2
+    //d2/dxidxi(f(g(x)) = f''(g(x)) * dg(x)/dxi * dg(x)/dxj + f'(g(x)) d2g(x)/dxidxj
+    y._half_hessian *= x.gradient();
+    y._half_hessian += x.half_hessian()*outer(y._gradient);
+    y._gradient *= x.gradient();
+    y._value = x._value;
+    return y;
+}
+
+template<class X> OutputStream& SecondDifferential<X>::_write(OutputStream& os) const {
+    SecondDifferential<X> const& x = *this;
+    os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{";
+    os << x._value;
+    for(SizeType j=0; j!=x.argument_size(); ++j) {
+        os << (j==0?"; ":",") << j << ":" << x[j];
+    }
+    for(SizeType j=0; j!=x.argument_size(); ++j) {
+        for(SizeType k=0; k!=x.argument_size(); ++k) {
+            os << (j==0&&k==0?"; ":",") << j << "," << k << ":" << x._half_hessian[j][k];
+        }
+    }
+    return os << " }";
+}
+
+
+template<class X> struct AlgebraOperations<SecondDifferential<X>,X> {
+
+    static SecondDifferential<X> apply(Pos, const SecondDifferential<X>& x) {
+        return SecondDifferential<X>(+x._value,+x._gradient,+x._half_hessian); }
+    static SecondDifferential<X> apply(Neg, const SecondDifferential<X>& x) {
+        return SecondDifferential<X>(-x._value,-x._gradient,-x._half_hessian); }
+
+    static SecondDifferential<X> apply(Add, SecondDifferential<X> x, const SecondDifferential<X>& y) {
+        x._value += y._value; x._gradient += y._gradient; x._half_hessian += y._half_hessian; return x; }
+    static SecondDifferential<X> apply(Sub, SecondDifferential<X> x, const SecondDifferential<X>& y) {
+        x._value -= y._value; x._gradient -= y._gradient; x._half_hessian -= y._half_hessian; return x; }
+    static SecondDifferential<X> apply(Mul, SecondDifferential<X> x, const SecondDifferential<X>& y) {
+        x._half_hessian *= y._value;
+        x._half_hessian += x._value * y._half_hessian;
+        for(SizeType j=0; j!=x.argument_size(); ++j) { for(SizeType k=0; k!=x.argument_size(); ++k) {
+            x._half_hessian[j][k]+=(x._gradient[j]*y._gradient[k]+x._gradient[k]*y._gradient[j])/2; } }
+        x._gradient *= y._value;
+        x._gradient += x._value * y._gradient;
+        x._value *= y._value;
+        return x;
+    }
+    static SecondDifferential<X> apply(Div, const SecondDifferential<X>& x, SecondDifferential<X> y) {
+        return mul(x,rec(std::move(y))); }
+
+    static SecondDifferential<X> apply(Add, SecondDifferential<X> x, const X& c) {
+        x._value+=c; return x; }
+    static SecondDifferential<X> apply(Sub, SecondDifferential<X> x, const X& c) {
+        x._value-=c; return x; }
+    static SecondDifferential<X> apply(Mul, SecondDifferential<X> x, const X& c) {
+        x._value*=c; x._gradient*=c; x._half_hessian*=c; return x; }
+    static SecondDifferential<X> apply(Div, SecondDifferential<X> x, const X& c) {
+        x._value/=c; x._gradient/=c; x._half_hessian/=c; return x; }
+
+    static SecondDifferential<X> apply(Min, const SecondDifferential<X>& x1, const SecondDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
+        if(x1.value()==x2.value()) {
+            ARIADNE_THROW(std::runtime_error,"min(SecondDifferential<X> x1, SecondDifferential<X> x2)","x1[0]==x2[0]");
+        }
+        return x1.value()<x2.value() ? x1 : x2;
+    }
+    static SecondDifferential<X> apply(Max, const SecondDifferential<X>& x1,const SecondDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2);
+        if(x1.value()==x2.value()) {
+            ARIADNE_THROW(std::runtime_error,"max(SecondDifferential<X> x1, SecondDifferential<X> x2)","x1[0]==x2[0]");
+        }
+        return x1.value()>x2.value() ? x1 : x2;
+    }
+    static SecondDifferential<X> apply(Abs, const SecondDifferential<X>& x) {
+        if(x.value()==0) {
+            ARIADNE_THROW(std::runtime_error,"abs(SecondDifferential<X> x)","x[0]==0");
+        }
+        return x.value()>0 ? pos(x) : neg(x);
+    }
+
+    template<class OP> static SecondDifferential<X> apply(OP op, const SecondDifferential<X>& x) {
+        return compose(UnivariateSecondDifferential<X>(op,x.value(),x)); }
+
+    static SecondDifferential<X> apply(Rec, const SecondDifferential<X>& x) {
+        X rec_val = rec(x._value);
+        X neg_sqr_rec_val = neg(sqr(rec_val));
+        X cub_rec_val = -rec_val*neg_sqr_rec_val;
+        return SecondDifferential<X>( rec_val, neg_sqr_rec_val*x._gradient, neg_sqr_rec_val*x._half_hessian + cub_rec_val * outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Sqr, const SecondDifferential<X>& x) {
+        return SecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Pow, const SecondDifferential<X>& x, Int n) {
+        return SecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, (n*pow(x._value,n-1))*x._half_hessian + hlf(n*(n-1)*pow(x._value,n-2)) * outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Sqrt, const SecondDifferential<X>& x) {
+        X sqrt_val = sqrt(x._value);
+        X rec_dbl_sqrt_val = rec(2*sqrt_val);
+        X neg_rec_quad_pow_val = neg(rec(4*sqrt_val*x._value));
+        return SecondDifferential<X>( sqrt_val, rec_dbl_sqrt_val*x._gradient, rec_dbl_sqrt_val*x._half_hessian + hlf(neg_rec_quad_pow_val) * outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Exp, const SecondDifferential<X>& x) {
+        X exp_val = exp(x._value);
+        return SecondDifferential<X>( exp_val, exp_val*x._gradient, exp_val*x._half_hessian+hlf(exp_val)*outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Log, const SecondDifferential<X>& x) {
+        X log_val = log(x._value);
+        X rec_val = rec(x._value);
+        X neg_sqr_rec_val = neg(sqr(rec_val));
+        return SecondDifferential<X>( log_val, rec_val*x._gradient, rec_val*x._half_hessian+hlf(neg_sqr_rec_val)*outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Sin, const SecondDifferential<X>& x) {
+        X sin_val = sin(x._value);
+        X cos_val = cos(x._value);
+        X neg_sin_val = neg(sin_val);
+        return SecondDifferential<X>( sin_val, cos_val*x._gradient, cos_val*x._half_hessian+hlf(neg_sin_val)*outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Cos, const SecondDifferential<X>& x) {
+        X cos_val = cos(x._value);
+        X neg_sin_val = neg(sin(x._value));
+        X neg_cos_val = neg(cos_val);
+        return SecondDifferential<X>( cos_val, neg_sin_val*x._gradient, neg_sin_val*x._half_hessian+hlf(neg_cos_val)*outer(x._gradient), SeriesTag() );
+    }
+
+    static SecondDifferential<X> apply(Tan, const SecondDifferential<X>& x) {
+        X tan_val = tan(x._value);
+        X sqr_sec_val = sqr(rec(cos(x._value)));
+        X dbl_tan_sqr_sec_val = 2*tan_val*sqr_sec_val;
+        return SecondDifferential<X>( tan_val, sqr_sec_val*x._gradient, sqr_sec_val*x._half_hessian+hlf(dbl_tan_sqr_sec_val)*outer(x._gradient), SeriesTag() );
+    }
+
+};
+
+
+
+
+
+
+
+
+
+/*! \brief A class representing the derivatives of a vector quantity depending on multiple arguments. */
+template<class X>
+class Vector< SecondDifferential<X> >
+    : public VectorExpression< Vector<SecondDifferential<X> > >
+{
+    //BOOST_CONCEPT_ASSERT((DifferentialVectorConcept<DifferentialVector<X> >));
+    FixedDifferentialCharacteristics<X> _chars;
+    Array< SecondDifferential<X> > _ary;
+  public:
+    // The type of the class
+    typedef Vector< SecondDifferential<X> > SelfType;
+    // The type used for accessing elements
+    typedef SizeType IndexType;
+    // The value stored in the vector.
+    typedef SecondDifferential<X> ValueType;
+    // The type used for scalars.
+    typedef X ScalarType;
+
+    template<class... PRS> requires Constructible<X,Nat,PRS...> Vector(SizeType rs, SizeType as, PRS... prs)
+        : _chars(as,prs...), _ary(rs, SecondDifferential<X>(as,prs...)) { }
+    Vector(SizeType rs, const SecondDifferential<X>& d) : _chars(d), _ary(rs,d) { }
+    Vector(SizeType rs, const SecondDifferential<X>* p) : _chars(p[0]), _ary(rs,p) { }
+    Vector(const Array<SecondDifferential<X>>& ary) : _chars(ary[0]), _ary(ary) { }
+    template<class E> Vector(const VectorExpression<E>& ve);
+    template<class E> Vector< SecondDifferential<X> >& operator=(const VectorExpression<E>& ve);
+
+
+    SizeType result_size() const { return this->size(); }
+    SizeType argument_size() const { return this->_chars.argument_size(); }
+    DegreeType degree() const { return 1u; }
+    SecondDifferential<X> zero_element() const {
+        return SecondDifferential<X>(this->argument_size(),this->_chars.zero_coefficient()); }
+    const Array<SecondDifferential<X>>& array() const { return _ary; }
+
+    SizeType size() const { return this->_ary.size(); }
+    const SecondDifferential<X>& get(SizeType i) const { return _ary[i]; }
+    SecondDifferential<X>& at(SizeType i) { return _ary[i]; }
+    Void set(SizeType i, const SecondDifferential<X>& d) const { _ary[i]=d; }
+    const SecondDifferential<X>& operator[](SizeType i) const { return _ary[i]; }
+    SecondDifferential<X>& operator[](SizeType i) { return _ary[i]; }
+
+    VectorRange<const Vector<SecondDifferential<X>>> operator[](Range rng) const { return project(*this,rng); }
+
+    Vector<X> value() const {
+        Vector<X> r(this->result_size());
+        for(SizeType i=0; i!=r.size(); ++i) { r[i]=(*this)[i].value(); } return r; }
+    Matrix<X> jacobian() const { Matrix<X> r(this->result_size(),this->argument_size(),this->_chars.zero_coefficient());
+        for(SizeType i=0; i!=r.row_size(); ++i) { for(SizeType j=0; j!=r.column_size(); ++j) { r[i][j]=(*this)[i].gradient(j); } } return r; }
+
+    friend Vector<X> value(const Vector<SecondDifferential<X>>& x) { return x.value(); }
+    friend Matrix<X> jacobian(const Vector<SecondDifferential<X>>& x) { return x.jacobian(); }
+};
+
+
+template<class X> inline FixedDifferentialCharacteristics<X>::FixedDifferentialCharacteristics(FirstDifferential<X> const& dx)
+    : _argument_size(dx.argument_size()), _zero_coefficient(dx.zero_coefficient())
+{ }
+
+template<class X> inline FixedDifferentialCharacteristics<X>::FixedDifferentialCharacteristics(SecondDifferential<X> const& dx)
+    : _argument_size(dx.argument_size()), _zero_coefficient(dx.zero_coefficient())
+{ }
+
+
+template<class X> class FixedDifferentialFactory {
+    typedef PrecisionType<X> PR;
+    PR _pr;
+  public:
+    FixedDifferentialFactory(PR const& pr) : _pr(pr) { }
+    template<class Y> requires Constructible<X,Y,PR> X create(Y const& y) { return X(y,_pr); }
+    template<class Y> FirstDifferential<X> create(FirstDifferential<Y> const&);
+    template<class Y> SecondDifferential<X> create(SecondDifferential<Y> const&);
+};
+template<class X> inline FixedDifferentialFactory<X> differential_factory(X const& x) {
+    return FixedDifferentialFactory<X>(x.precision()); }
+template<class X> inline FixedDifferentialFactory<X> factory(FirstDifferential<X> const& dx) {
+    return FixedDifferentialFactory<X>(dx.value().precision()); }
+template<class X> inline FixedDifferentialFactory<X> factory(SecondDifferential<X> const& dx) {
+    return FixedDifferentialFactory<X>(dx.value().precision()); }
+
+
+
+
+} //namespace Ariadne
+
+#endif // ARIADNE_FIXED_DIFFERENTIAL_HPP
diff --git a/source/algebra/fixed_univariate_differential.hpp b/source/algebra/fixed_univariate_differential.hpp
index c7c1eab..9bde7c8 100644
--- a/source/algebra/fixed_univariate_differential.hpp
+++ b/source/algebra/fixed_univariate_differential.hpp
@@ -1,439 +1,439 @@
-/***************************************************************************
- *            algebra/fixed_univariate_differential.hpp
- *
- *  Copyright  2013-20  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-/*! \file algebra/fixed_univariate_differential.hpp
- *  \brief First- and second-order univariate differentials.
- */
-
-#ifndef ARIADNE_FIXED_UNIVARIATE_DIFFERENTIAL_HPP
-#define ARIADNE_FIXED_UNIVARIATE_DIFFERENTIAL_HPP
-
-#include "utility/macros.hpp"
-
-namespace Ariadne {
-
-template<class X> class DifferentialFactory;
-
-//! \ingroup DifferentiationModule
-//! \brief A class representing the value and derivative of a scalar quantity
-//! depending on a single argument.
-template<class X>
-class UnivariateFirstDifferential
-    : public DispatchTranscendentalAlgebraOperations<UnivariateFirstDifferential<X>,X>
-    , public DispatchLatticeAlgebraOperations<UnivariateFirstDifferential<X>,X>
-    , public ProvideConcreteGenericArithmeticOperations<UnivariateFirstDifferential<X>>
-{
-  public:
-    X _value;
-    X _gradient;
-  public:
-    //! \brief The type of used to represent numbers in the coefficient.
-    typedef typename X::NumericType NumericType;
-    //! \brief The type of used to represent the coefficients.
-    typedef X ValueType;
-
-    template<class... PRS> requires Constructible<X,Nat,PRS...>
-    explicit UnivariateFirstDifferential(PRS... prs) : _value(X(0u,prs...)), _gradient(_value) { }
-
-    //! \brief Constructs a first differential with constant value \a c.
-    explicit UnivariateFirstDifferential(const X& c) : _value(c), _gradient(nul(c)) { }
-
-    //! \brief Constructs a first differential with value \a v and gradient \a g.
-    explicit UnivariateFirstDifferential(const X& v, const X& g) : _value(v), _gradient(g) { }
-
-    //! \brief Conversion constructor from a different numerical type.
-    template<class XX> UnivariateFirstDifferential(const UnivariateFirstDifferential<XX>& x)
-        : _value(x._value), _gradient(x._gradient) { }
-
-    //! \brief Construct from  a power series.
-    UnivariateFirstDifferential(const Series<X>& x)
-        : _value(x[0]), _gradient(x[1]) { }
-
-    template<class OP> UnivariateFirstDifferential(OP op, X const& c)
-        : _value(op(c)), _gradient(next_series_coefficient(op,1u,c,&_value)) { }
-
-    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
-    UnivariateFirstDifferential<X>& operator=(const X& c) { _value=c; _gradient=nul(c); return *this; }
-
-    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
-    static UnivariateFirstDifferential<X> constant(const X& c) {
-        UnivariateFirstDifferential<X> r(c); return r; }
-    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
-    static UnivariateFirstDifferential<X> variable(const X& v) {
-        UnivariateFirstDifferential<X> r(v); r._gradient=1; return r; }
-
-    UnivariateFirstDifferential<X> create_zero() const {
-        return UnivariateFirstDifferential(nul(this->_value)); }
-
-    //! \brief Equality operator.
-    EqualityType<X> operator==(const UnivariateFirstDifferential<X>& other) const {
-        return this->_value==other._value && this->_gradient==other._gradient; }
-
-    //! \brief Inequality operator.
-    InequalityType<X> operator!=(const UnivariateFirstDifferential<X>& other) const {
-        return !(*this==other); }
-
-    //! \brief The number of independent variables.
-    SizeType argument_size() const { return 1u; }
-    //! \brief The maximum degree of the stored terms.
-    DegreeType degree() const { return 1u; }
-    //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
-    const X& value() const { return this->_value; }
-    //! \brief The first derivative.
-    const X& gradient() const { return this->_gradient; }
-
-    //! \brief Set the coefficient of the constant term to \a c.
-    Void set_value(const X& c) { this->_value=c; }
-
-    //! \brief Set all coefficients to zero.
-    Void clear() { this->_value=0; this->_gradient=0; }
-  public:
-    friend DifferentialFactory<X> factory(UnivariateFirstDifferential<X> const& dx) {
-        return DifferentialFactory<X>(dx.value().precision()); }
-    friend OutputStream& operator<<(OutputStream& os, const UnivariateFirstDifferential<X>& x) {
-        os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{ ";
-        os << x._value << "; " << x._gradient;
-        return os << " }";
-    }
-  public:
-    friend decltype(auto) operator>=(const UnivariateFirstDifferential<X>& x, const UnivariateFirstDifferential<X>& y) {
-        return x._value>=y._value; }
-    friend decltype(auto) operator<=(const UnivariateFirstDifferential<X>& x, const UnivariateFirstDifferential<X>& y) {
-        return x._value<=y._value; }
-    friend decltype(auto) operator>=(const UnivariateFirstDifferential<X>& x, const X& c) {
-        return x._value>=c; }
-    friend decltype(auto) operator<=(const UnivariateFirstDifferential<X>& x, const X& c) {
-        return x._value<=c; }
-    friend decltype(auto) operator> (const UnivariateFirstDifferential<X>& x, const X& c) {
-        return x._value> c; }
-    friend decltype(auto) operator< (const UnivariateFirstDifferential<X>& x, const X& c) {
-        return x._value< c; }
-    friend decltype(auto) operator>=(const X& c, const UnivariateFirstDifferential<X>& x) {
-        return c>=x._value; }
-    friend decltype(auto) operator<=(const X& c, const UnivariateFirstDifferential<X>& x) {
-        return c<=x._value; }
-    friend decltype(auto) operator< (const X& c, const UnivariateFirstDifferential<X>& x) {
-        return c< x._value; }
-    friend decltype(auto) operator> (const X& c, const UnivariateFirstDifferential<X>& x) {
-        return c> x._value; }
-};
-
-template<class X> UnivariateFirstDifferential<X> create_zero(const UnivariateFirstDifferential<X>& c) {
-    return UnivariateFirstDifferential<X>(create_zero(c.value())); }
-
-template<class X> struct AlgebraOperations<UnivariateFirstDifferential<X>,X> {
-    static UnivariateFirstDifferential<X> apply(Add, UnivariateFirstDifferential<X> x, const X& c) {
-        x._value+=c; return x; }
-    static UnivariateFirstDifferential<X> apply(Sub, UnivariateFirstDifferential<X> x, const X& c) {
-        x._value-=c; return x; }
-    static UnivariateFirstDifferential<X> apply(Mul, UnivariateFirstDifferential<X> x, const X& c) {
-        x._value*=c; x._gradient*=c; return x; }
-    static UnivariateFirstDifferential<X> apply(Div, UnivariateFirstDifferential<X> x, const X& c) {
-        x._value/=c; x._gradient/=c; return x; }
-
-    static UnivariateFirstDifferential<X> apply(Add, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
-        x._value += y._value; x._gradient += y._gradient; return x; }
-    static UnivariateFirstDifferential<X> apply(Sub, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
-        x._value -= y._value; x._gradient -= y._gradient; return x; }
-    static UnivariateFirstDifferential<X> apply(Mul, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
-        x._gradient *= y._value; x._gradient += x._value * y._gradient; x._value *= y._value; return x; }
-    static UnivariateFirstDifferential<X> apply(Div, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
-        x._value /= y._value; x._gradient -= x._value * y._gradient; x._gradient /= y._value; return x; }
-
-    static UnivariateFirstDifferential<X> apply(Pos, const UnivariateFirstDifferential<X>& x) {
-        return UnivariateFirstDifferential<X>(+x._value,+x._gradient); }
-    static UnivariateFirstDifferential<X> apply(Neg, const UnivariateFirstDifferential<X>& x) {
-        return UnivariateFirstDifferential<X>(-x._value,-x._gradient); }
-
-    static UnivariateFirstDifferential<X> apply(Min, const UnivariateFirstDifferential<X>& x1, const UnivariateFirstDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
-            ARIADNE_THROW(std::runtime_error,"min(UnivariateFirstDifferential<X> x1, UnivariateFirstDifferential<X> x2)","x1[0]==x2[0]"); }
-        return x1.value()<x2.value() ? x1 : x2; }
-    static UnivariateFirstDifferential<X> apply(Max, const UnivariateFirstDifferential<X>& x1,const UnivariateFirstDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
-            ARIADNE_THROW(std::runtime_error,"max(UnivariateFirstDifferential<X> x1, UnivariateFirstDifferential<X> x2)","x1[0]==x2[0]"); }
-        return x1.value()>x2.value() ? x1 : x2; }
-    static UnivariateFirstDifferential<X> apply(Abs, const UnivariateFirstDifferential<X>& x) {
-        if(x.value()==0) {
-            ARIADNE_THROW(std::runtime_error,"abs(UnivariateFirstDifferential<X> x)","x[0]==0"); }
-        return x.value()>0 ? pos(x) : neg(x); }
-
-    static UnivariateFirstDifferential<X> apply(Pow, const UnivariateFirstDifferential<X>& x, Int n) {
-        return UnivariateFirstDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient ); }
-
-    template<class OP> static UnivariateFirstDifferential<X> apply(OP op, const UnivariateFirstDifferential<X>& x) {
-        return compose(UnivariateFirstDifferential<X>(op,x.value()),x); }
-
-    static UnivariateFirstDifferential<X> apply(Sqrt, const UnivariateFirstDifferential<X>& x) {
-        X sqrt_val = sqrt(x._value); return UnivariateFirstDifferential<X>( sqrt_val, rec(2*sqrt_val)*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Exp, const UnivariateFirstDifferential<X>& x) {
-        X exp_val = exp(x._value); return UnivariateFirstDifferential<X>( exp_val, exp_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Log, const UnivariateFirstDifferential<X>& x) {
-        X log_val = log(x._value); X rec_val = rec(x._value); return UnivariateFirstDifferential<X>( log_val, rec_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Sin, const UnivariateFirstDifferential<X>& x) {
-        X sin_val = sin(x._value); X cos_val = cos(x._value); return UnivariateFirstDifferential<X>( sin_val, cos_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Cos, const UnivariateFirstDifferential<X>& x) {
-        X cos_val = cos(x._value); X neg_sin_val = neg(sin(x._value)); return UnivariateFirstDifferential<X>( cos_val, neg_sin_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Tan, const UnivariateFirstDifferential<X>& x) {
-        X tan_val = tan(x._value); X sqr_sec_val = sqr(rec(cos(x._value))); return UnivariateFirstDifferential<X>( tan_val, sqr_sec_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Asin, const UnivariateFirstDifferential<X>& x) {
-        X asin_val = asin(x._value); X d_asin_val = rec(sqrt(1.0-sqr(x._value))); return UnivariateFirstDifferential<X>( asin_val, d_asin_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Acos, const UnivariateFirstDifferential<X>& x) {
-        X acos_val = acos(x._value); X d_acos_val = neg(rec(sqrt(1.0-sqr(x._value)))); return UnivariateFirstDifferential<X>( acos_val, d_acos_val*x._gradient ); }
-
-    static UnivariateFirstDifferential<X> apply(Atan, const UnivariateFirstDifferential<X>& x) {
-        X atan_val = atan(x._value); X d_atan_val = rec(1+sqr(x._value)); return UnivariateFirstDifferential<X>( atan_val, d_atan_val*x._gradient ); }
-};
-
-
-
-
-
-
-
-
-
-
-//! \ingroup DifferentiationModule
-//! \brief A class representing the value, first and second derivatives of a scalar quantity
-//! depending on a single argument.
-template<class X>
-class UnivariateSecondDifferential
-    : public DispatchTranscendentalAlgebraOperations<UnivariateSecondDifferential<X>,X>
-    , public DispatchLatticeAlgebraOperations<UnivariateSecondDifferential<X>,X>
-    , public ProvideConcreteGenericArithmeticOperations<UnivariateSecondDifferential<X>>
-{
-  public:
-    X _value;
-    X _gradient;
-    X _half_hessian;
-  public:
-    //! \brief The type of used to represent numbers in the coefficient.
-    typedef typename X::NumericType NumericType;
-    //! \brief The type of used to represent the coefficients.
-    typedef X ValueType;
-
-    template<class... PRS> requires Constructible<X,Nat,PRS...>
-    explicit UnivariateSecondDifferential(PRS... prs) : _value(X(0u,prs...)), _gradient(_value), _half_hessian(_value) { }
-
-    //! \brief Constructs a constant differential with value \a c.
-    explicit UnivariateSecondDifferential(const X& c) : _value(c), _gradient(nul(c)), _half_hessian(nul(c)) { }
-
-    //! \brief Constructs a second differential with value \a v, derivative \a g and second derivative \a 0.
-    explicit UnivariateSecondDifferential(const X& v, const X& g) : _value(v), _gradient(g), _half_hessian(nul(v)) { }
-
-    //! \brief Constructs a second differential with value \a v, derivative \a g and second derivative \a h.
-//    explicit UnivariateSecondDifferential(const X& v, const X& g, const X& h) : _value(v), _gradient(g), _half_hessian(h) { }
-
-    //! \brief Construct from  a power series.
-    UnivariateSecondDifferential(const Series<X>& x)
-        : _value(x[0]), _gradient(x[1]), _half_hessian(x[2]) { }
-
-    template<class OP> UnivariateSecondDifferential(OP op, X const& c)
-        : _value(op(c)), _gradient(next_series_coefficient(op,1u,c,&_value)), _half_hessian(next_series_coefficient(op,2u,c,&_value)) { }
-
-    //! \brief Conversion constructor from a different numerical type.
-    template<class XX> UnivariateSecondDifferential(const UnivariateSecondDifferential<XX>& x)
-        : _value(x._value), _gradient(x._gradient), _half_hessian(x._half_hessian) { }
-
-    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
-    UnivariateSecondDifferential<X>& operator=(const X& c) {
-        _value=c; _gradient=nul(c); _half_hessian=nul(c); return *this; }
-    template<AssignableTo<X> W>
-        UnivariateSecondDifferential<X>& operator=(const W& c) { X xc=nul(this->value()); xc=c; return (*this)=xc; }
-
-    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
-    static UnivariateSecondDifferential<X> constant(const X& c) {
-        UnivariateSecondDifferential<X> r(c); return r; }
-    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
-    static UnivariateSecondDifferential<X> variable(const X& v) {
-        UnivariateSecondDifferential<X> r(v); r._gradient=1; return r; }
-
-    UnivariateSecondDifferential<X> create_zero() const {
-        return UnivariateSecondDifferential(nul(this->_value)); }
-
-        //! \brief Equality operator.
-    EqualityType<X> operator==(const UnivariateSecondDifferential<X>& other) const {
-        return this->_value==other._value && this->_gradient==other._gradient  && this->_half_hessian==other._half_hessian; }
-
-    //! \brief Inequality operator.
-    InequalityType<X> operator!=(const UnivariateSecondDifferential<X>& other) const {
-        return !(*this==other); }
-
-    //! \brief The number of independent variables.
-    SizeType argument_size() const { return 1u; }
-    //! \brief The maximum degree of the stored terms.
-    DegreeType degree() const { return 2u; }
-    //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
-    const X& value() const { return this->_value; }
-    //! \brief The first derivative.
-    const X& gradient() const { return this->_gradient; }
-    //! \brief The second derivative.
-    const X hessian() const { return this->_half_hessian*2; }
-    //! \brief Half the second derivative; equal to the coefficient of the polynomial with the same derivatives.
-    const X& half_hessian() const { return this->_half_hessian; }
-
-
-    //! \brief Set the coefficient of the constant term to \a c.
-    Void set_value(const X& c) { this->_value=c; }
-
-    //! \brief Set all coefficients to zero.
-    Void clear() { (*this)=nul(this->_value); }
-  public:
-    friend DifferentialFactory<X> factory(UnivariateSecondDifferential<X> const& dx) {
-        return DifferentialFactory<X>(dx.value().precision()); }
-
-    friend UnivariateSecondDifferential<X> compose(UnivariateSecondDifferential<X> const& df, UnivariateSecondDifferential<X> dg) {
-        dg._half_hessian *= df._gradient;
-        dg._half_hessian += df._half_hessian * sqr(dg._gradient);
-        dg._gradient *= df._gradient;
-        dg._value = df._value;
-        return dg;
-    }
-    friend OutputStream& operator<<(OutputStream& os, const UnivariateSecondDifferential<X>& x)  {
-        os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{";
-        os << x._value << ";" << x._gradient << ";" << x._half_hessian;
-        return os << " }";
-    }
-  public:
-    typedef Number<Paradigm<X>> Y;
-    friend UnivariateSecondDifferential<X> max(const UnivariateSecondDifferential<X>& x1, const Y& c2) { ARIADNE_NOT_IMPLEMENTED; }
-    friend UnivariateSecondDifferential<X> min(const UnivariateSecondDifferential<X>& x1, const Y& c2) { ARIADNE_NOT_IMPLEMENTED; }
-    friend UnivariateSecondDifferential<X> max(const Y& c1, const UnivariateSecondDifferential<X>& x2) { ARIADNE_NOT_IMPLEMENTED; }
-    friend UnivariateSecondDifferential<X> min(const Y& c1, const UnivariateSecondDifferential<X>& x2) { ARIADNE_NOT_IMPLEMENTED; }
-
-    friend decltype(auto) operator>=(const UnivariateSecondDifferential<X>& x, const UnivariateSecondDifferential<X>& y) {
-        return x._value>=y._value; }
-    friend decltype(auto) operator<=(const UnivariateSecondDifferential<X>& x, const UnivariateSecondDifferential<X>& y) {
-        return x._value<=y._value; }
-    friend decltype(auto) operator>=(const UnivariateSecondDifferential<X>& x, const X& c) { return x._value>=c; }
-    friend decltype(auto) operator<=(const UnivariateSecondDifferential<X>& x, const X& c) { return x._value<=c; }
-    friend decltype(auto) operator> (const UnivariateSecondDifferential<X>& x, const X& c) { return x._value> c; }
-    friend decltype(auto) operator< (const UnivariateSecondDifferential<X>& x, const X& c) { return x._value< c; }
-    friend decltype(auto) operator>=(const X& c, const UnivariateSecondDifferential<X>& x) { return c>=x._value; }
-    friend decltype(auto) operator<=(const X& c, const UnivariateSecondDifferential<X>& x) { return c<=x._value; }
-    friend decltype(auto) operator> (const X& c, const UnivariateSecondDifferential<X>& x) { return c> x._value; }
-    friend decltype(auto) operator< (const X& c, const UnivariateSecondDifferential<X>& x) { return c< x._value; }
-  public:
-    explicit UnivariateSecondDifferential(const X& v, const X& g, const X& half_h) : _value(v), _gradient(g), _half_hessian(half_h) { }
-};
-
-template<class X> struct AlgebraOperations<UnivariateSecondDifferential<X>,X> {
-    static UnivariateSecondDifferential<X> apply(Add, UnivariateSecondDifferential<X> x, const X& c) {
-        x._value+=c; return x; }
-    static UnivariateSecondDifferential<X> apply(Sub, UnivariateSecondDifferential<X> x, const X& c) {
-        x._value-=c; return x; }
-    static UnivariateSecondDifferential<X> apply(Mul, UnivariateSecondDifferential<X> x, const X& c) {
-        x._value*=c; x._gradient*=c; x._half_hessian*=c; return x; }
-    static UnivariateSecondDifferential<X> apply(Div, UnivariateSecondDifferential<X> x, const X& c) {
-        x._value/=c; x._gradient/=c; x._half_hessian/=c; return x; }
-
-    static UnivariateSecondDifferential<X> apply(Add, UnivariateSecondDifferential<X> x, const UnivariateSecondDifferential<X>& y) {
-        x._value += y._value; x._gradient += y._gradient; x._half_hessian += y._half_hessian; return x; }
-
-    static UnivariateSecondDifferential<X> apply(Sub, UnivariateSecondDifferential<X> x, const UnivariateSecondDifferential<X>& y) {
-        x._value -= y._value; x._gradient -= y._gradient; x._half_hessian -= y._half_hessian; return x; }
-
-    static UnivariateSecondDifferential<X> apply(Mul, UnivariateSecondDifferential<X> x, const UnivariateSecondDifferential<X>& y) {
-        x._half_hessian *= y._value; x._half_hessian += x._gradient*y._gradient; x._half_hessian += x._value * y._half_hessian; x._gradient *= y._value; x._gradient += x._value * y._gradient; x._value *= y._value; return x; }
-    static UnivariateSecondDifferential<X> apply(Div, const UnivariateSecondDifferential<X>& x, const UnivariateSecondDifferential<X>& y) {
-        return UnivariateSecondDifferential<X>(x._value/y._value,(x._gradient-(x._value/y._value)*y._gradient)/y._value,
-                                            (x._half_hessian/y._value)-(x._value/y._value)*(y._half_hessian/y._value)
-                                                -(x._gradient/y._value)*(y._gradient/y._value)+(x._value/y._value)*sqr(y._gradient/y._value)); }
-
-    static UnivariateSecondDifferential<X> apply(Pos, const UnivariateSecondDifferential<X>& x) {
-        return UnivariateSecondDifferential<X>(+x._value,+x._gradient,+x._half_hessian); }
-    static UnivariateSecondDifferential<X> apply(Neg, const UnivariateSecondDifferential<X>& x) {
-        return UnivariateSecondDifferential<X>(-x._value,-x._gradient,-x._half_hessian); }
-
-    static UnivariateSecondDifferential<X> apply(Min, const UnivariateSecondDifferential<X>& x1, const UnivariateSecondDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(decide(x1.value()==x2.value())) {
-            ARIADNE_THROW(std::runtime_error,"min(UnivariateSecondDifferential<X> x1, UnivariateSecondDifferential<X> x2)","x1[0]==x2[0]"); }
-        return decide(x1.value()<x2.value()) ? x1 : x2; }
-    static UnivariateSecondDifferential<X> apply(Max, const UnivariateSecondDifferential<X>& x1,const UnivariateSecondDifferential<X>& x2) {
-        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(decide(x1.value()==x2.value())) {
-            ARIADNE_THROW(std::runtime_error,"max(UnivariateSecondDifferential<X> x1, UnivariateSecondDifferential<X> x2)","x1[0]==x2[0]"); }
-        return decide(x1.value()>x2.value()) ? x1 : x2; }
-    static UnivariateSecondDifferential<X> apply(Abs, const UnivariateSecondDifferential<X>& x) {
-        if(decide(x.value()==0)) {
-            ARIADNE_THROW(std::runtime_error,"abs(UnivariateSecondDifferential<X> x)","x[0]==0"); }
-        return decide(x.value()>0) ? pos(x) : neg(x); }
-
-    static UnivariateSecondDifferential<X> apply(Rec, const UnivariateSecondDifferential<X>& x) {
-        X rec_val = rec(x._value); X neg_sqr_rec_val = neg(sqr(rec_val)); X cub_rec_val = -rec_val*neg_sqr_rec_val;
-        return UnivariateSecondDifferential<X>( rec_val, neg_sqr_rec_val*x._gradient, neg_sqr_rec_val*x._half_hessian + cub_rec_val * sqr(x._gradient) ); }
-
-    template<class OP> static UnivariateSecondDifferential<X> apply(OP op, const UnivariateSecondDifferential<X>& x) {
-        return compose(UnivariateSecondDifferential<X>(op,x.value()),x); }
-
-    static UnivariateSecondDifferential<X> apply(Sqr, const UnivariateSecondDifferential<X>& x) {
-        return UnivariateSecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Pow, const UnivariateSecondDifferential<X>& x, Int n) {
-        return UnivariateSecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, (n*pow(x._value,n-1))*x._half_hessian + hlf(n*(n-1)*pow(x._value,n-2))*sqr(x._gradient) ); }
-
-    //ddf(y)/dxdx = d/dx ( f'(y) dy/dx) = f''(y) dy/dx dy/dx + f'(y) ddy/dxdx
-
-    static UnivariateSecondDifferential<X> apply(Sqrt, const UnivariateSecondDifferential<X>& x) {
-        X sqrt_val = sqrt(x._value); X rec_dbl_sqrt_val = rec(2*sqrt_val); X neg_rec_quad_pow_val = neg(rec(4*sqrt_val*x._value));
-        return UnivariateSecondDifferential<X>( sqrt_val, rec_dbl_sqrt_val*x._gradient, rec_dbl_sqrt_val*x._half_hessian + hlf(neg_rec_quad_pow_val) * sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Exp, const UnivariateSecondDifferential<X>& x) {
-        X exp_val = exp(x._value); return UnivariateSecondDifferential<X>( exp_val, exp_val*x._gradient, exp_val*x._half_hessian+hlf(exp_val)*sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Log, const UnivariateSecondDifferential<X>& x) {
-        X log_val = log(x._value); X rec_val = rec(x._value); X neg_sqr_rec_val = neg(sqr(rec_val));
-        return UnivariateSecondDifferential<X>( log_val, rec_val*x._gradient, rec_val*x._half_hessian+hlf(neg_sqr_rec_val)*sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Sin, const UnivariateSecondDifferential<X>& x) {
-        X sin_val = sin(x._value); X cos_val = cos(x._value); X neg_sin_val = neg(sin_val);
-        return UnivariateSecondDifferential<X>( sin_val, cos_val*x._gradient, cos_val*x._half_hessian+hlf(neg_sin_val)*sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Cos, const UnivariateSecondDifferential<X>& x) {
-        X cos_val = cos(x._value); X neg_sin_val = neg(sin(x._value)); X neg_cos_val = neg(cos_val);
-        return UnivariateSecondDifferential<X>( cos_val, neg_sin_val*x._gradient, neg_sin_val*x._half_hessian+hlf(neg_cos_val)*sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Tan, const UnivariateSecondDifferential<X>& x) {
-        X tan_val = tan(x._value); X sqr_sec_val = sqr(rec(cos(x._value))); X dbl_tan_sqr_sec_val = 2*tan_val*sqr_sec_val;
-        return UnivariateSecondDifferential<X>( tan_val, sqr_sec_val*x._gradient, sqr_sec_val*x._half_hessian+hlf(dbl_tan_sqr_sec_val)*sqr(x._gradient) ); }
-
-    static UnivariateSecondDifferential<X> apply(Atan, const UnivariateSecondDifferential<X>& x) {
-        X atan_val = atan(x._value); X atan_deriv = rec(1+sqr(x._value)); X atan_second_deriv = -2*x._value*sqr(atan_deriv);
-        return UnivariateSecondDifferential<X>( atan_val, atan_deriv*x._gradient, atan_deriv*x._half_hessian+hlf(atan_second_deriv)*sqr(x._gradient) ); }
-};
-
-
-
-
-
-} //namespace Ariadne
-
-#endif // ARIADNE_FIXED_UNIVARIATE_DIFFERENTIAL_HPP
+/***************************************************************************
+ *            algebra/fixed_univariate_differential.hpp
+ *
+ *  Copyright  2013-20  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+/*! \file algebra/fixed_univariate_differential.hpp
+ *  \brief First- and second-order univariate differentials.
+ */
+
+#ifndef ARIADNE_FIXED_UNIVARIATE_DIFFERENTIAL_HPP
+#define ARIADNE_FIXED_UNIVARIATE_DIFFERENTIAL_HPP
+
+#include "utility/macros.hpp"
+
+namespace Ariadne {
+
+template<class X> class DifferentialFactory;
+
+//! \ingroup DifferentiationModule
+//! \brief A class representing the value and derivative of a scalar quantity
+//! depending on a single argument.
+template<class X>
+class UnivariateFirstDifferential
+    : public DispatchTranscendentalAlgebraOperations<UnivariateFirstDifferential<X>,X>
+    , public DispatchLatticeAlgebraOperations<UnivariateFirstDifferential<X>,X>
+    , public ProvideConcreteGenericArithmeticOperations<UnivariateFirstDifferential<X>>
+{
+  public:
+    X _value;
+    X _gradient;
+  public:
+    //! \brief The type of used to represent numbers in the coefficient.
+    typedef typename X::NumericType NumericType;
+    //! \brief The type of used to represent the coefficients.
+    typedef X ValueType;
+
+    template<class... PRS> requires Constructible<X,Nat,PRS...>
+    explicit UnivariateFirstDifferential(PRS... prs) : _value(X(0u,prs...)), _gradient(_value) { }
+
+    //! \brief Constructs a first differential with constant value \a c.
+    explicit UnivariateFirstDifferential(const X& c) : _value(c), _gradient(nul(c)) { }
+
+    //! \brief Constructs a first differential with value \a v and gradient \a g.
+    explicit UnivariateFirstDifferential(const X& v, const X& g) : _value(v), _gradient(g) { }
+
+    //! \brief Conversion constructor from a different numerical type.
+    template<class XX> UnivariateFirstDifferential(const UnivariateFirstDifferential<XX>& x)
+        : _value(x._value), _gradient(x._gradient) { }
+
+    //! \brief Construct from  a power series.
+    UnivariateFirstDifferential(const Series<X>& x)
+        : _value(x[0]), _gradient(x[1]) { }
+
+    template<class OP> UnivariateFirstDifferential(OP op, X const& c)
+        : _value(op(c)), _gradient(next_series_coefficient(op,1u,c,&_value)) { }
+
+    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
+    UnivariateFirstDifferential<X>& operator=(const X& c) { _value=c; _gradient=nul(c); return *this; }
+
+    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
+    static UnivariateFirstDifferential<X> constant(const X& c) {
+        UnivariateFirstDifferential<X> r(c); return r; }
+    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
+    static UnivariateFirstDifferential<X> variable(const X& v) {
+        UnivariateFirstDifferential<X> r(v); r._gradient=1; return r; }
+
+    UnivariateFirstDifferential<X> create_zero() const {
+        return UnivariateFirstDifferential(nul(this->_value)); }
+
+    //! \brief Equality operator.
+    EqualityType<X> operator==(const UnivariateFirstDifferential<X>& other) const {
+        return this->_value==other._value && this->_gradient==other._gradient; }
+
+    //! \brief Inequality operator.
+    InequalityType<X> operator!=(const UnivariateFirstDifferential<X>& other) const {
+        return !(*this==other); }
+
+    //! \brief The number of independent variables.
+    SizeType argument_size() const { return 1u; }
+    //! \brief The maximum degree of the stored terms.
+    DegreeType degree() const { return 1u; }
+    //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
+    const X& value() const { return this->_value; }
+    //! \brief The first derivative.
+    const X& gradient() const { return this->_gradient; }
+
+    //! \brief Set the coefficient of the constant term to \a c.
+    Void set_value(const X& c) { this->_value=c; }
+
+    //! \brief Set all coefficients to zero.
+    Void clear() { this->_value=0; this->_gradient=0; }
+  public:
+    friend DifferentialFactory<X> factory(UnivariateFirstDifferential<X> const& dx) {
+        return DifferentialFactory<X>(dx.value().precision()); }
+    friend OutputStream& operator<<(OutputStream& os, const UnivariateFirstDifferential<X>& x) {
+        os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{ ";
+        os << x._value << "; " << x._gradient;
+        return os << " }";
+    }
+  public:
+    friend decltype(auto) operator>=(const UnivariateFirstDifferential<X>& x, const UnivariateFirstDifferential<X>& y) {
+        return x._value>=y._value; }
+    friend decltype(auto) operator<=(const UnivariateFirstDifferential<X>& x, const UnivariateFirstDifferential<X>& y) {
+        return x._value<=y._value; }
+    friend decltype(auto) operator>=(const UnivariateFirstDifferential<X>& x, const X& c) {
+        return x._value>=c; }
+    friend decltype(auto) operator<=(const UnivariateFirstDifferential<X>& x, const X& c) {
+        return x._value<=c; }
+    friend decltype(auto) operator> (const UnivariateFirstDifferential<X>& x, const X& c) {
+        return x._value> c; }
+    friend decltype(auto) operator< (const UnivariateFirstDifferential<X>& x, const X& c) {
+        return x._value< c; }
+    friend decltype(auto) operator>=(const X& c, const UnivariateFirstDifferential<X>& x) {
+        return c>=x._value; }
+    friend decltype(auto) operator<=(const X& c, const UnivariateFirstDifferential<X>& x) {
+        return c<=x._value; }
+    friend decltype(auto) operator< (const X& c, const UnivariateFirstDifferential<X>& x) {
+        return c< x._value; }
+    friend decltype(auto) operator> (const X& c, const UnivariateFirstDifferential<X>& x) {
+        return c> x._value; }
+};
+
+template<class X> UnivariateFirstDifferential<X> create_zero(const UnivariateFirstDifferential<X>& c) {
+    return UnivariateFirstDifferential<X>(create_zero(c.value())); }
+
+template<class X> struct AlgebraOperations<UnivariateFirstDifferential<X>,X> {
+    static UnivariateFirstDifferential<X> apply(Add, UnivariateFirstDifferential<X> x, const X& c) {
+        x._value+=c; return x; }
+    static UnivariateFirstDifferential<X> apply(Sub, UnivariateFirstDifferential<X> x, const X& c) {
+        x._value-=c; return x; }
+    static UnivariateFirstDifferential<X> apply(Mul, UnivariateFirstDifferential<X> x, const X& c) {
+        x._value*=c; x._gradient*=c; return x; }
+    static UnivariateFirstDifferential<X> apply(Div, UnivariateFirstDifferential<X> x, const X& c) {
+        x._value/=c; x._gradient/=c; return x; }
+
+    static UnivariateFirstDifferential<X> apply(Add, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
+        x._value += y._value; x._gradient += y._gradient; return x; }
+    static UnivariateFirstDifferential<X> apply(Sub, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
+        x._value -= y._value; x._gradient -= y._gradient; return x; }
+    static UnivariateFirstDifferential<X> apply(Mul, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
+        x._gradient *= y._value; x._gradient += x._value * y._gradient; x._value *= y._value; return x; }
+    static UnivariateFirstDifferential<X> apply(Div, UnivariateFirstDifferential<X> x, const UnivariateFirstDifferential<X>& y) {
+        x._value /= y._value; x._gradient -= x._value * y._gradient; x._gradient /= y._value; return x; }
+
+    static UnivariateFirstDifferential<X> apply(Pos, const UnivariateFirstDifferential<X>& x) {
+        return UnivariateFirstDifferential<X>(+x._value,+x._gradient); }
+    static UnivariateFirstDifferential<X> apply(Neg, const UnivariateFirstDifferential<X>& x) {
+        return UnivariateFirstDifferential<X>(-x._value,-x._gradient); }
+
+    static UnivariateFirstDifferential<X> apply(Min, const UnivariateFirstDifferential<X>& x1, const UnivariateFirstDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
+            ARIADNE_THROW(std::runtime_error,"min(UnivariateFirstDifferential<X> x1, UnivariateFirstDifferential<X> x2)","x1[0]==x2[0]"); }
+        return x1.value()<x2.value() ? x1 : x2; }
+    static UnivariateFirstDifferential<X> apply(Max, const UnivariateFirstDifferential<X>& x1,const UnivariateFirstDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(x1.value()==x2.value()) {
+            ARIADNE_THROW(std::runtime_error,"max(UnivariateFirstDifferential<X> x1, UnivariateFirstDifferential<X> x2)","x1[0]==x2[0]"); }
+        return x1.value()>x2.value() ? x1 : x2; }
+    static UnivariateFirstDifferential<X> apply(Abs, const UnivariateFirstDifferential<X>& x) {
+        if(x.value()==0) {
+            ARIADNE_THROW(std::runtime_error,"abs(UnivariateFirstDifferential<X> x)","x[0]==0"); }
+        return x.value()>0 ? pos(x) : neg(x); }
+
+    static UnivariateFirstDifferential<X> apply(Pow, const UnivariateFirstDifferential<X>& x, Int n) {
+        return UnivariateFirstDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient ); }
+
+    template<class OP> static UnivariateFirstDifferential<X> apply(OP op, const UnivariateFirstDifferential<X>& x) {
+        return compose(UnivariateFirstDifferential<X>(op,x.value()),x); }
+
+    static UnivariateFirstDifferential<X> apply(Sqrt, const UnivariateFirstDifferential<X>& x) {
+        X sqrt_val = sqrt(x._value); return UnivariateFirstDifferential<X>( sqrt_val, rec(2*sqrt_val)*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Exp, const UnivariateFirstDifferential<X>& x) {
+        X exp_val = exp(x._value); return UnivariateFirstDifferential<X>( exp_val, exp_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Log, const UnivariateFirstDifferential<X>& x) {
+        X log_val = log(x._value); X rec_val = rec(x._value); return UnivariateFirstDifferential<X>( log_val, rec_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Sin, const UnivariateFirstDifferential<X>& x) {
+        X sin_val = sin(x._value); X cos_val = cos(x._value); return UnivariateFirstDifferential<X>( sin_val, cos_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Cos, const UnivariateFirstDifferential<X>& x) {
+        X cos_val = cos(x._value); X neg_sin_val = neg(sin(x._value)); return UnivariateFirstDifferential<X>( cos_val, neg_sin_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Tan, const UnivariateFirstDifferential<X>& x) {
+        X tan_val = tan(x._value); X sqr_sec_val = sqr(rec(cos(x._value))); return UnivariateFirstDifferential<X>( tan_val, sqr_sec_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Asin, const UnivariateFirstDifferential<X>& x) {
+        X asin_val = asin(x._value); X d_asin_val = rec(sqrt(1.0-sqr(x._value))); return UnivariateFirstDifferential<X>( asin_val, d_asin_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Acos, const UnivariateFirstDifferential<X>& x) {
+        X acos_val = acos(x._value); X d_acos_val = neg(rec(sqrt(1.0-sqr(x._value)))); return UnivariateFirstDifferential<X>( acos_val, d_acos_val*x._gradient ); }
+
+    static UnivariateFirstDifferential<X> apply(Atan, const UnivariateFirstDifferential<X>& x) {
+        X atan_val = atan(x._value); X d_atan_val = rec(1+sqr(x._value)); return UnivariateFirstDifferential<X>( atan_val, d_atan_val*x._gradient ); }
+};
+
+
+
+
+
+
+
+
+
+
+//! \ingroup DifferentiationModule
+//! \brief A class representing the value, first and second derivatives of a scalar quantity
+//! depending on a single argument.
+template<class X>
+class UnivariateSecondDifferential
+    : public DispatchTranscendentalAlgebraOperations<UnivariateSecondDifferential<X>,X>
+    , public DispatchLatticeAlgebraOperations<UnivariateSecondDifferential<X>,X>
+    , public ProvideConcreteGenericArithmeticOperations<UnivariateSecondDifferential<X>>
+{
+  public:
+    X _value;
+    X _gradient;
+    X _half_hessian;
+  public:
+    //! \brief The type of used to represent numbers in the coefficient.
+    typedef typename X::NumericType NumericType;
+    //! \brief The type of used to represent the coefficients.
+    typedef X ValueType;
+
+    template<class... PRS> requires Constructible<X,Nat,PRS...>
+    explicit UnivariateSecondDifferential(PRS... prs) : _value(X(0u,prs...)), _gradient(_value), _half_hessian(_value) { }
+
+    //! \brief Constructs a constant differential with value \a c.
+    explicit UnivariateSecondDifferential(const X& c) : _value(c), _gradient(nul(c)), _half_hessian(nul(c)) { }
+
+    //! \brief Constructs a second differential with value \a v, derivative \a g and second derivative \a 0.
+    explicit UnivariateSecondDifferential(const X& v, const X& g) : _value(v), _gradient(g), _half_hessian(nul(v)) { }
+
+    //! \brief Constructs a second differential with value \a v, derivative \a g and second derivative \a h.
+//    explicit UnivariateSecondDifferential(const X& v, const X& g, const X& h) : _value(v), _gradient(g), _half_hessian(h) { }
+
+    //! \brief Construct from  a power series.
+    UnivariateSecondDifferential(const Series<X>& x)
+        : _value(x[0]), _gradient(x[1]), _half_hessian(x[2]) { }
+
+    template<class OP> UnivariateSecondDifferential(OP op, X const& c)
+        : _value(op(c)), _gradient(next_series_coefficient(op,1u,c,&_value)), _half_hessian(next_series_coefficient(op,2u,c,&_value)) { }
+
+    //! \brief Conversion constructor from a different numerical type.
+    template<class XX> UnivariateSecondDifferential(const UnivariateSecondDifferential<XX>& x)
+        : _value(x._value), _gradient(x._gradient), _half_hessian(x._half_hessian) { }
+
+    //! \brief Set the differential equal to a constant, without changing the degree or number of arguments.
+    UnivariateSecondDifferential<X>& operator=(const X& c) {
+        _value=c; _gradient=nul(c); _half_hessian=nul(c); return *this; }
+    template<AssignableTo<X> W>
+        UnivariateSecondDifferential<X>& operator=(const W& c) { X xc=nul(this->value()); xc=c; return (*this)=xc; }
+
+    //! \brief A constant differential of degree \a deg in \a as arguments with value \a c.
+    static UnivariateSecondDifferential<X> constant(const X& c) {
+        UnivariateSecondDifferential<X> r(c); return r; }
+    //! \brief A differential of degree \a deg in \a as arguments representing the quantity \f$v+x_j\f$.
+    static UnivariateSecondDifferential<X> variable(const X& v) {
+        UnivariateSecondDifferential<X> r(v); r._gradient=1; return r; }
+
+    UnivariateSecondDifferential<X> create_zero() const {
+        return UnivariateSecondDifferential(nul(this->_value)); }
+
+        //! \brief Equality operator.
+    EqualityType<X> operator==(const UnivariateSecondDifferential<X>& other) const {
+        return this->_value==other._value && this->_gradient==other._gradient  && this->_half_hessian==other._half_hessian; }
+
+    //! \brief Inequality operator.
+    InequalityType<X> operator!=(const UnivariateSecondDifferential<X>& other) const {
+        return !(*this==other); }
+
+    //! \brief The number of independent variables.
+    SizeType argument_size() const { return 1u; }
+    //! \brief The maximum degree of the stored terms.
+    DegreeType degree() const { return 2u; }
+    //! \brief The value of the differential i.e. the coefficient of \f$1\f$.
+    const X& value() const { return this->_value; }
+    //! \brief The first derivative.
+    const X& gradient() const { return this->_gradient; }
+    //! \brief The second derivative.
+    const X hessian() const { return this->_half_hessian*2; }
+    //! \brief Half the second derivative; equal to the coefficient of the polynomial with the same derivatives.
+    const X& half_hessian() const { return this->_half_hessian; }
+
+
+    //! \brief Set the coefficient of the constant term to \a c.
+    Void set_value(const X& c) { this->_value=c; }
+
+    //! \brief Set all coefficients to zero.
+    Void clear() { (*this)=nul(this->_value); }
+  public:
+    friend DifferentialFactory<X> factory(UnivariateSecondDifferential<X> const& dx) {
+        return DifferentialFactory<X>(dx.value().precision()); }
+
+    friend UnivariateSecondDifferential<X> compose(UnivariateSecondDifferential<X> const& df, UnivariateSecondDifferential<X> dg) {
+        dg._half_hessian *= df._gradient;
+        dg._half_hessian += df._half_hessian * sqr(dg._gradient);
+        dg._gradient *= df._gradient;
+        dg._value = df._value;
+        return dg;
+    }
+    friend OutputStream& operator<<(OutputStream& os, const UnivariateSecondDifferential<X>& x)  {
+        os << "D<R"<<x.argument_size()<<","<<x.degree()<<">{";
+        os << x._value << ";" << x._gradient << ";" << x._half_hessian;
+        return os << " }";
+    }
+  public:
+    typedef Number<Paradigm<X>> Y;
+    friend UnivariateSecondDifferential<X> max(const UnivariateSecondDifferential<X>& x1, const Y& c2) { ARIADNE_NOT_IMPLEMENTED; }
+    friend UnivariateSecondDifferential<X> min(const UnivariateSecondDifferential<X>& x1, const Y& c2) { ARIADNE_NOT_IMPLEMENTED; }
+    friend UnivariateSecondDifferential<X> max(const Y& c1, const UnivariateSecondDifferential<X>& x2) { ARIADNE_NOT_IMPLEMENTED; }
+    friend UnivariateSecondDifferential<X> min(const Y& c1, const UnivariateSecondDifferential<X>& x2) { ARIADNE_NOT_IMPLEMENTED; }
+
+    friend decltype(auto) operator>=(const UnivariateSecondDifferential<X>& x, const UnivariateSecondDifferential<X>& y) {
+        return x._value>=y._value; }
+    friend decltype(auto) operator<=(const UnivariateSecondDifferential<X>& x, const UnivariateSecondDifferential<X>& y) {
+        return x._value<=y._value; }
+    friend decltype(auto) operator>=(const UnivariateSecondDifferential<X>& x, const X& c) { return x._value>=c; }
+    friend decltype(auto) operator<=(const UnivariateSecondDifferential<X>& x, const X& c) { return x._value<=c; }
+    friend decltype(auto) operator> (const UnivariateSecondDifferential<X>& x, const X& c) { return x._value> c; }
+    friend decltype(auto) operator< (const UnivariateSecondDifferential<X>& x, const X& c) { return x._value< c; }
+    friend decltype(auto) operator>=(const X& c, const UnivariateSecondDifferential<X>& x) { return c>=x._value; }
+    friend decltype(auto) operator<=(const X& c, const UnivariateSecondDifferential<X>& x) { return c<=x._value; }
+    friend decltype(auto) operator> (const X& c, const UnivariateSecondDifferential<X>& x) { return c> x._value; }
+    friend decltype(auto) operator< (const X& c, const UnivariateSecondDifferential<X>& x) { return c< x._value; }
+  public:
+    explicit UnivariateSecondDifferential(const X& v, const X& g, const X& half_h) : _value(v), _gradient(g), _half_hessian(half_h) { }
+};
+
+template<class X> struct AlgebraOperations<UnivariateSecondDifferential<X>,X> {
+    static UnivariateSecondDifferential<X> apply(Add, UnivariateSecondDifferential<X> x, const X& c) {
+        x._value+=c; return x; }
+    static UnivariateSecondDifferential<X> apply(Sub, UnivariateSecondDifferential<X> x, const X& c) {
+        x._value-=c; return x; }
+    static UnivariateSecondDifferential<X> apply(Mul, UnivariateSecondDifferential<X> x, const X& c) {
+        x._value*=c; x._gradient*=c; x._half_hessian*=c; return x; }
+    static UnivariateSecondDifferential<X> apply(Div, UnivariateSecondDifferential<X> x, const X& c) {
+        x._value/=c; x._gradient/=c; x._half_hessian/=c; return x; }
+
+    static UnivariateSecondDifferential<X> apply(Add, UnivariateSecondDifferential<X> x, const UnivariateSecondDifferential<X>& y) {
+        x._value += y._value; x._gradient += y._gradient; x._half_hessian += y._half_hessian; return x; }
+
+    static UnivariateSecondDifferential<X> apply(Sub, UnivariateSecondDifferential<X> x, const UnivariateSecondDifferential<X>& y) {
+        x._value -= y._value; x._gradient -= y._gradient; x._half_hessian -= y._half_hessian; return x; }
+
+    static UnivariateSecondDifferential<X> apply(Mul, UnivariateSecondDifferential<X> x, const UnivariateSecondDifferential<X>& y) {
+        x._half_hessian *= y._value; x._half_hessian += x._gradient*y._gradient; x._half_hessian += x._value * y._half_hessian; x._gradient *= y._value; x._gradient += x._value * y._gradient; x._value *= y._value; return x; }
+    static UnivariateSecondDifferential<X> apply(Div, const UnivariateSecondDifferential<X>& x, const UnivariateSecondDifferential<X>& y) {
+        return UnivariateSecondDifferential<X>(x._value/y._value,(x._gradient-(x._value/y._value)*y._gradient)/y._value,
+                                            (x._half_hessian/y._value)-(x._value/y._value)*(y._half_hessian/y._value)
+                                                -(x._gradient/y._value)*(y._gradient/y._value)+(x._value/y._value)*sqr(y._gradient/y._value)); }
+
+    static UnivariateSecondDifferential<X> apply(Pos, const UnivariateSecondDifferential<X>& x) {
+        return UnivariateSecondDifferential<X>(+x._value,+x._gradient,+x._half_hessian); }
+    static UnivariateSecondDifferential<X> apply(Neg, const UnivariateSecondDifferential<X>& x) {
+        return UnivariateSecondDifferential<X>(-x._value,-x._gradient,-x._half_hessian); }
+
+    static UnivariateSecondDifferential<X> apply(Min, const UnivariateSecondDifferential<X>& x1, const UnivariateSecondDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(decide(x1.value()==x2.value())) {
+            ARIADNE_THROW(std::runtime_error,"min(UnivariateSecondDifferential<X> x1, UnivariateSecondDifferential<X> x2)","x1[0]==x2[0]"); }
+        return decide(x1.value()<x2.value()) ? x1 : x2; }
+    static UnivariateSecondDifferential<X> apply(Max, const UnivariateSecondDifferential<X>& x1,const UnivariateSecondDifferential<X>& x2) {
+        ARIADNE_ASSERT_MSG(x1.argument_size()==x2.argument_size(),"x1="<<x1<<" x2="<<x2); if(decide(x1.value()==x2.value())) {
+            ARIADNE_THROW(std::runtime_error,"max(UnivariateSecondDifferential<X> x1, UnivariateSecondDifferential<X> x2)","x1[0]==x2[0]"); }
+        return decide(x1.value()>x2.value()) ? x1 : x2; }
+    static UnivariateSecondDifferential<X> apply(Abs, const UnivariateSecondDifferential<X>& x) {
+        if(decide(x.value()==0)) {
+            ARIADNE_THROW(std::runtime_error,"abs(UnivariateSecondDifferential<X> x)","x[0]==0"); }
+        return decide(x.value()>0) ? pos(x) : neg(x); }
+
+    static UnivariateSecondDifferential<X> apply(Rec, const UnivariateSecondDifferential<X>& x) {
+        X rec_val = rec(x._value); X neg_sqr_rec_val = neg(sqr(rec_val)); X cub_rec_val = -rec_val*neg_sqr_rec_val;
+        return UnivariateSecondDifferential<X>( rec_val, neg_sqr_rec_val*x._gradient, neg_sqr_rec_val*x._half_hessian + cub_rec_val * sqr(x._gradient) ); }
+
+    template<class OP> static UnivariateSecondDifferential<X> apply(OP op, const UnivariateSecondDifferential<X>& x) {
+        return compose(UnivariateSecondDifferential<X>(op,x.value()),x); }
+
+    static UnivariateSecondDifferential<X> apply(Sqr, const UnivariateSecondDifferential<X>& x) {
+        return UnivariateSecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Pow, const UnivariateSecondDifferential<X>& x, Int n) {
+        return UnivariateSecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, (n*pow(x._value,n-1))*x._half_hessian + hlf(n*(n-1)*pow(x._value,n-2))*sqr(x._gradient) ); }
+
+    //ddf(y)/dxdx = d/dx ( f'(y) dy/dx) = f''(y) dy/dx dy/dx + f'(y) ddy/dxdx
+
+    static UnivariateSecondDifferential<X> apply(Sqrt, const UnivariateSecondDifferential<X>& x) {
+        X sqrt_val = sqrt(x._value); X rec_dbl_sqrt_val = rec(2*sqrt_val); X neg_rec_quad_pow_val = neg(rec(4*sqrt_val*x._value));
+        return UnivariateSecondDifferential<X>( sqrt_val, rec_dbl_sqrt_val*x._gradient, rec_dbl_sqrt_val*x._half_hessian + hlf(neg_rec_quad_pow_val) * sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Exp, const UnivariateSecondDifferential<X>& x) {
+        X exp_val = exp(x._value); return UnivariateSecondDifferential<X>( exp_val, exp_val*x._gradient, exp_val*x._half_hessian+hlf(exp_val)*sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Log, const UnivariateSecondDifferential<X>& x) {
+        X log_val = log(x._value); X rec_val = rec(x._value); X neg_sqr_rec_val = neg(sqr(rec_val));
+        return UnivariateSecondDifferential<X>( log_val, rec_val*x._gradient, rec_val*x._half_hessian+hlf(neg_sqr_rec_val)*sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Sin, const UnivariateSecondDifferential<X>& x) {
+        X sin_val = sin(x._value); X cos_val = cos(x._value); X neg_sin_val = neg(sin_val);
+        return UnivariateSecondDifferential<X>( sin_val, cos_val*x._gradient, cos_val*x._half_hessian+hlf(neg_sin_val)*sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Cos, const UnivariateSecondDifferential<X>& x) {
+        X cos_val = cos(x._value); X neg_sin_val = neg(sin(x._value)); X neg_cos_val = neg(cos_val);
+        return UnivariateSecondDifferential<X>( cos_val, neg_sin_val*x._gradient, neg_sin_val*x._half_hessian+hlf(neg_cos_val)*sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Tan, const UnivariateSecondDifferential<X>& x) {
+        X tan_val = tan(x._value); X sqr_sec_val = sqr(rec(cos(x._value))); X dbl_tan_sqr_sec_val = 2*tan_val*sqr_sec_val;
+        return UnivariateSecondDifferential<X>( tan_val, sqr_sec_val*x._gradient, sqr_sec_val*x._half_hessian+hlf(dbl_tan_sqr_sec_val)*sqr(x._gradient) ); }
+
+    static UnivariateSecondDifferential<X> apply(Atan, const UnivariateSecondDifferential<X>& x) {
+        X atan_val = atan(x._value); X atan_deriv = rec(1+sqr(x._value)); X atan_second_deriv = -2*x._value*sqr(atan_deriv);
+        return UnivariateSecondDifferential<X>( atan_val, atan_deriv*x._gradient, atan_deriv*x._half_hessian+hlf(atan_second_deriv)*sqr(x._gradient) ); }
+};
+
+
+
+
+
+} //namespace Ariadne
+
+#endif // ARIADNE_FIXED_UNIVARIATE_DIFFERENTIAL_HPP
diff --git a/source/geometry/binary_tree.cpp b/source/geometry/binary_tree.cpp
index 87f16a0..21ca608 100644
--- a/source/geometry/binary_tree.cpp
+++ b/source/geometry/binary_tree.cpp
@@ -1,472 +1,472 @@
-/***************************************************************************
- *            geometry/binary_tree.cpp
- *
- *  Copyright  2008-20  Ivan S. Zapreev, Pieter Collins
- *
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-#include <iostream>
-#include <iomanip>
-
-#include "config.hpp"
-
-#include "function/functional.hpp"
-#include "utility/macros.hpp"
-#include "utility/exceptions.hpp"
-#include "utility/stlio.hpp"
-#include "geometry/list_set.hpp"
-#include "geometry/binary_tree.hpp"
-
-
-namespace Ariadne {
-
-
-Bool BinaryTreeNode::has_enabled() const {
-    if( is_leaf() ) {
-        return is_enabled();
-    } else {
-        return ( left_node()->has_enabled() || right_node()->has_enabled() );
-    }
-}
-
-Bool BinaryTreeNode::all_enabled() const {
-    if( is_leaf() ) {
-        return is_enabled();
-    } else {
-        return ( left_node()->all_enabled() && right_node()->all_enabled() );
-    }
-}
-
-Bool BinaryTreeNode::is_enabled( const BinaryWord & path, const Nat position) const {
-    Bool result = false ;
-
-    if( this->is_leaf() ){
-        //If we are in an enabled leaf node then the answer is true.
-        //Since path.size() >= 0, the node defined by the path is a
-        //subnode of an enabled node, thus we return true.
-        result = is_enabled();
-    } else {
-        if( position < path.size() ) {
-            //The path is not complete yet and we are in a
-            //non-leaf node, so we follow the path in the tree
-            if( path[ position ] ) {
-                result = right_node()->is_enabled( path, position + 1 );
-            } else {
-                result = left_node()->is_enabled( path, position + 1 );
-            }
-        } else {
-            //We are somewhere in the tree in a non-leaf node,
-            //this node corresponds to the node given by the path
-            //If both left and right sub trees are fully enabled,
-            //then the cell defined by the binary path is "enabled"
-            //in this tree otherwise it is not.
-            result = all_enabled();
-        }
-    }
-    return result;
-}
-
-Bool BinaryTreeNode::is_equal_nodes( const BinaryTreeNode * pFirstNode, const BinaryTreeNode * pSecondNode ) {
-    Bool result = true;
-
-    if( pFirstNode != pSecondNode){
-        //If the pointers do not reference the same objects
-        if( ( pFirstNode != nullptr ) && ( pSecondNode != nullptr ) ){
-            //And both nodes are not null
-            if( ! ( (* pFirstNode) == ( * pSecondNode ) ) ){
-                //The objects referenced by the pointers do not contain equal data
-                result = false;
-            }
-        } else {
-            //One of the nodes is null and the other is not
-            result = false;
-        }
-    }
-    return result;
-}
-
-Bool BinaryTreeNode::operator==(const BinaryTreeNode & otherNode ) const {
-    return ( ( definitely(this->_isEnabled == otherNode._isEnabled) ) ||
-             ( is_indeterminate( this->_isEnabled     ) &&
-               is_indeterminate( otherNode._isEnabled ) ) )            &&
-        is_equal_nodes( this->_pLeftNode , otherNode._pLeftNode )   &&
-        is_equal_nodes( this->_pRightNode , otherNode._pRightNode );
-}
-
-Void BinaryTreeNode::restrict( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode ){
-    if( ( pThisNode != nullptr ) && ( pOtherNode != nullptr ) ){
-        if( pThisNode->is_leaf() && pOtherNode->is_leaf() ){
-            //Both nodes are leaf nodes: Make a regular AND
-            pThisNode->_isEnabled = (pThisNode->_isEnabled && pOtherNode->_isEnabled);
-        } else {
-            if( !pThisNode->is_leaf() && pOtherNode->is_leaf() ){
-                if( pOtherNode->is_enabled() ){
-                    //DO NOTHING: The restriction will not affect pThisNode
-                } else {
-                    //Turn the node a disabled leaf, since we do AND with false
-                    pThisNode->make_leaf(false);
-                }
-            } else {
-                if( pThisNode->is_leaf() && !pOtherNode->is_leaf() ){
-                    if( pThisNode->is_enabled() ){
-                        //If this node is enabled then copy in the other node
-                        //Since it will be their intersection any ways
-                        pThisNode->copy_from( pOtherNode );
-                    } else {
-                        //DO NOTHING: The restriction is empty in this case
-                        //because this node is a disabled leaf
-                    }
-                } else {
-                    //Both nodes are non-leaf nodes: Go recursively left and right
-                    restrict( pThisNode->_pLeftNode, pOtherNode->_pLeftNode );
-                    restrict( pThisNode->_pRightNode, pOtherNode->_pRightNode );
-                }
-            }
-        }
-    }
-}
-
-Void BinaryTreeNode::remove( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode ) {
-    if( ( pThisNode != nullptr ) && ( pOtherNode != nullptr ) ){
-        if( pThisNode->is_leaf() && pOtherNode->is_leaf() ){
-            if( pThisNode->is_enabled() && pOtherNode->is_enabled() ){
-                //Both nodes are enabled leaf nodes: Make a regular subtraction, i.e. set the false
-                pThisNode->_isEnabled = false;
-            } else {
-                //DO NOTHING: In all other cases there is nothing to be done
-            }
-        } else {
-            if( !pThisNode->is_leaf() && pOtherNode->is_leaf() ){
-                if( pOtherNode->is_enabled() ){
-                    //Turn the node into a disabled leaf, since we subtract all below
-                    pThisNode->make_leaf(false);
-                } else {
-                    //DO NOTHING: We are trying to remove a disabled node
-                }
-            } else {
-                if( pThisNode->is_leaf() ) {
-                    if( pThisNode->is_enabled() ){
-                        //This is an enabled leaf node and so we might subtract smth from it
-                        //The pOtherNode is not a leaf, due to previous checks so we split
-                        //pThisNode and then do the recursion as in case on two non-leaf nodes
-                        pThisNode->split();
-                    } else {
-                        //DO NOTHING: We are trying to remove from a disabled leaf node. Whatever
-                        //we are trying to remove, will not have any effect on the result. We return
-                        //because in all remaining cases we need to do recursion for sub trees.
-                        return;
-                    }
-                } else {
-                    //We will have to do the recursion to remove the leaf nodes
-                }
-                //Both nodes are non-leaf nodes now: Go recursively left and right
-                remove( pThisNode->_pLeftNode, pOtherNode->_pLeftNode );
-                remove( pThisNode->_pRightNode, pOtherNode->_pRightNode );
-            }
-        }
-    }
-}
-
-Void BinaryTreeNode::restore_node( BinaryTreeNode * pCurrentNode, Nat & arr_index, Nat & leaf_counter,
-                                   const BooleanArray& theTree, const BooleanArray& theEnabledCells) {
-    //If we are not done with the the tree yet
-    if( arr_index < theTree.size() ) {
-        //If we are in a non-leaf node then go further
-        if( theTree[arr_index] ) {
-            pCurrentNode->split();
-            //IVAN S. ZAPREEV:
-            //NOTE: We assume a correct input, i.e. both children are present
-            //NOTE: We increase the arr_index before calling recursion for each
-            //      of the subnodes of the tree
-            restore_node( pCurrentNode->_pLeftNode, ++arr_index, leaf_counter, theTree, theEnabledCells );
-            restore_node( pCurrentNode->_pRightNode, ++arr_index, leaf_counter, theTree, theEnabledCells );
-        } else {
-            //If we are in a leaf node then chek if it needs to be enabled/disabled
-            pCurrentNode->_isEnabled = ValidatedKleenean(theEnabledCells[leaf_counter]);
-
-            leaf_counter++;
-        }
-    }
-}
-
-Void BinaryTreeNode::mince_node(BinaryTreeNode * pCurrentNode, const Nat depth) {
-    //If we need to mince further.
-    if( depth > 0 ){
-        //If the node is present, i.e. the parent is not a disabled node.
-        if( pCurrentNode != nullptr ){
-            //If the current node is not disabled: enabled (leaf) or
-            //indeterminate (non-leaf) then there is a work to do.
-            if( ! pCurrentNode->is_disabled() ){
-                pCurrentNode->split();
-
-                const Nat remaining_depth = depth - 1;
-
-                mince_node( pCurrentNode->_pLeftNode, remaining_depth );
-                mince_node( pCurrentNode->_pRightNode, remaining_depth );
-            }
-        } else {
-            throw std::runtime_error( ARIADNE_PRETTY_FUNCTION );
-        }
-    }
-}
-
-Void BinaryTreeNode::recombine_node(BinaryTreeNode * pCurrentNode) {
-    //Just a safety check
-    if( pCurrentNode != nullptr ){
-        //If it is not a leaf node then it should have both of it's subnodes != nullptr
-        if( ! pCurrentNode->is_leaf() ){
-            BinaryTreeNode * pLeftNode = pCurrentNode->_pLeftNode;
-            BinaryTreeNode * pRightNode = pCurrentNode->_pRightNode;
-
-            //This recursive calls ensure that we do recombination from the bottom up
-            recombine_node( pLeftNode );
-            recombine_node( pRightNode );
-
-            //Do the recombination for the leaf nodes rooted to pCurrentNode
-            if( pLeftNode->is_leaf() && pRightNode->is_leaf() ){
-                if( definitely(pLeftNode->_isEnabled == pRightNode->_isEnabled) ){
-                    //Make it the leaf node with the derived _isEnabled value
-                    pCurrentNode->make_leaf( pLeftNode->_isEnabled );
-                }
-            }
-        }
-    } else {
-        throw std::runtime_error( ARIADNE_PRETTY_FUNCTION );
-    }
-}
-
-Nat BinaryTreeNode::depth() const {
-    //The depth of the sub-tree rooted to this node
-    Nat result;
-
-    if( ! this->is_leaf() ){
-        //If the node is not a leaf, compute the depth of the sub-trees and take the maximum + 1
-        //Note that, both left and right sub-nodes must exist, by to the way we construct the tree
-        result = std::max(this->left_node()->depth(), this->right_node()->depth() ) + 1;
-    } else {
-        //If the node is a leaf then the depth of the sub-tree is zero
-        result = 0;
-    }
-
-    return result;
-}
-
-SizeType BinaryTreeNode::count_enabled_leaf_nodes( const BinaryTreeNode* pNode ) {
-    if(pNode->is_leaf()) {
-        return pNode->is_enabled() ? 1u : 0u;
-    } else {
-        return count_enabled_leaf_nodes(pNode->left_node())
-            + count_enabled_leaf_nodes(pNode->right_node());
-    }
-}
-
-Void BinaryTreeNode::tree_to_binary_words( BinaryWord & tree, BinaryWord & leaves ) const {
-    if( is_leaf() ) {
-        tree.push_back( false );
-        leaves.push_back( definitely( _isEnabled ) );
-    } else {
-        tree.push_back( true );
-        _pLeftNode->tree_to_binary_words( tree, leaves );
-        _pRightNode->tree_to_binary_words( tree, leaves );
-    }
-}
-
-Void BinaryTreeNode::add_enabled( const BinaryTreeNode * pOtherSubTree, const BinaryWord & path ){
-    //1. Locate the node, follow the path until it's end or until we meet an enabled node
-    BinaryTreeNode * pCurrentSubTree = this;
-    Nat position = 0;
-    while( ( position < path.size() ) && ! pCurrentSubTree->is_enabled() ){
-        //Split the node, if it is not a leaf it will not be changed
-        pCurrentSubTree->split();
-        //Follow the path step
-        pCurrentSubTree = ( path[position] ? pCurrentSubTree->_pRightNode : pCurrentSubTree->_pLeftNode );
-        //Go to the next path element
-        position ++;
-    }
-    //2. Now we are in the right node of this tree or we have met an enabled node on the path,
-    //   Thus, if this node is not enabled then we go on with adding subTree.
-    if( ! pCurrentSubTree->is_enabled() ){
-        add_enabled( pCurrentSubTree, pOtherSubTree );
-    }
-}
-
-Void BinaryTreeNode::add_enabled( BinaryTreeNode* pToTreeRoot, const BinaryTreeNode* pFromTreeRoot ){
-    if( pToTreeRoot->is_leaf() ){
-        //If we are adding something to a leaf node
-        if( pToTreeRoot->is_enabled() ){
-            //Do nothing, adding to an enabled leaf node (nothing new can be added)
-        } else {
-            if( pFromTreeRoot->is_leaf() ){
-                //If we are adding something to a disabled leaf node
-                if( pFromTreeRoot->is_enabled() ){
-                    //Adding an enabled node: Enable the node of pToTreeRoot
-                    pToTreeRoot->set_enabled();
-                } else {
-                    //Do nothing, adding a disabled leaf node to a disabled leaf node
-                }
-            } else {
-                //Adding a subtree pFromTreeRoot to a disabled leaf node pToTreeRoot
-                //Using copy constructors here, to avoid memory collisions
-                pToTreeRoot->_pLeftNode = new BinaryTreeNode( *pFromTreeRoot->_pLeftNode );
-                pToTreeRoot->_pRightNode = new BinaryTreeNode( *pFromTreeRoot->_pRightNode );
-                //Set the leaf node as unknown, since we do not know what is below
-                pToTreeRoot->set_unknown();
-            }
-        }
-    } else {
-        //If we are adding something to a non-leaf node
-        if( pFromTreeRoot->is_leaf() ){
-            //Adding a leaf to a non-leaf node
-            if( pFromTreeRoot->is_enabled() ){
-                //Make the enabled leaf node
-                pToTreeRoot->make_leaf(true);
-            } else {
-                //Do nothing, adding a disabled node to a sub tree (nothing new can be added)
-            }
-        } else {
-            //Adding a non-leaf node to a non-leaf node, do recursion
-            add_enabled( pToTreeRoot->_pLeftNode, pFromTreeRoot->_pLeftNode );
-            add_enabled( pToTreeRoot->_pRightNode, pFromTreeRoot->_pRightNode );
-        }
-    }
-}
-
-Void BinaryTreeNode::add_enabled( BinaryTreeNode* pRootTreeNode, const BinaryWord& path, const Nat position ) {
-    if( position < path.size() ) {
-        //There is still something to do
-        if( pRootTreeNode->is_leaf() ){
-            if( pRootTreeNode->is_enabled() ) {
-                //This leaf is enabled so adding path will not change anything
-                return;
-            } else {
-                //Split the disabled node
-                pRootTreeNode->split();
-            }
-        }
-        //Go left-right depenting on the specified path
-        add_enabled( ( path[position] ? pRootTreeNode->_pRightNode : pRootTreeNode->_pLeftNode ), path, position + 1 );
-    } else {
-        //We are at the destination node
-        if( pRootTreeNode->is_leaf() ){
-            //Mark the node as enabled
-            pRootTreeNode->set_enabled();
-        } else {
-            //If this is not a leaf node, then make it leaf
-            //The leafs below are not interesting any more
-            pRootTreeNode->make_leaf(true);
-        }
-    }
-}
-
-BinaryTreeNode * BinaryTreeNode::prepend_tree( const BinaryWord & rootNodePath, BinaryTreeNode * oldRootNode){
-    //With an empty path there is nothing to put above the old root
-    if( rootNodePath.empty() ) { return oldRootNode; }
-    //Create the new binary tree node
-    BinaryTreeNode * pRootBinaryTreeNode = new BinaryTreeNode(), * pCurrentBinaryTreeNode = pRootBinaryTreeNode;
-    Nat i = 0;
-    //Loop until the last path element, because it has to be treated in a different manner
-    for( ; i < ( rootNodePath.size() - 1 ) ; i++ ){
-        //Split the node
-        pCurrentBinaryTreeNode->split();
-        //Move to the appropriate subnode
-        pCurrentBinaryTreeNode = (rootNodePath[i]) ? pCurrentBinaryTreeNode->_pRightNode : pCurrentBinaryTreeNode->_pLeftNode;
-    }
-    //Split the node for the last time
-    pCurrentBinaryTreeNode->split();
-    //Substitute the new primary cell with the one we had before
-    if( rootNodePath[i] ){
-        delete pCurrentBinaryTreeNode->_pRightNode;
-        pCurrentBinaryTreeNode->_pRightNode = oldRootNode;
-    } else {
-        delete pCurrentBinaryTreeNode->_pLeftNode;
-        pCurrentBinaryTreeNode->_pLeftNode = oldRootNode;
-    }
-    return pRootBinaryTreeNode;
-}
-
-Bool BinaryTreeNode::intersect( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo ) {
-    Bool result = false;
-
-    Bool isNodeOneALeaf = pRootNodeOne->is_leaf();
-    Bool isNodeTwoALeaf = pRootNodeTwo->is_leaf();
-
-    if( isNodeOneALeaf && isNodeTwoALeaf ) {
-        //If both nodes are leaves, then the trees overlap if only both of the nodes are enabled
-        result = pRootNodeOne->is_enabled() && pRootNodeTwo->is_enabled();
-    } else {
-        if( ! isNodeOneALeaf && isNodeTwoALeaf ){
-            //If the second node is a leaf then the trees overlap is it is enabled
-            //and the first node has an enabled sub-node
-            result = pRootNodeTwo->is_enabled() && pRootNodeOne->has_enabled();
-        } else {
-            if( isNodeOneALeaf && ! isNodeTwoALeaf ){
-                //If the first node is a leaf then the trees overlap is it is enabled
-                //and the second node has an enabled sub-node
-                result = pRootNodeOne->is_enabled() && pRootNodeTwo->has_enabled();
-            } else {
-                //Both nodes are non-lead nodes, then the trees overlap if
-                //either their left or right branches overlap
-                result = intersect( pRootNodeOne->left_node(), pRootNodeTwo->left_node() ) ||
-                    intersect( pRootNodeOne->right_node(), pRootNodeTwo->right_node() );
-            }
-        }
-    }
-
-    return result;
-}
-
-Bool BinaryTreeNode::subset( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo ) {
-    Bool result = false;
-
-    Bool isNodeOneALeaf = pRootNodeOne->is_leaf();
-    Bool isNodeTwoALeaf = pRootNodeTwo->is_leaf();
-
-    if( isNodeOneALeaf && isNodeTwoALeaf ) {
-        //If both nodes are leaves, then pRootNodeOne is a subset of pRootNodeTwo if:
-        // 1. both of the nodes are enabled or
-        // 2. pRootNodeOne is disabled (represents an empty set)
-        result = ( ! pRootNodeOne->is_enabled() ) || pRootNodeTwo->is_enabled();
-    } else {
-        if( ! isNodeOneALeaf && isNodeTwoALeaf ){
-            //If pRootNodeTwo is a leaf then pRootNodeOne is a subset of pRootNodeTwo if:
-            // 1. pRootNodeTwo is enabled or
-            // 2. pRootNodeOne has no enabled sub-nodes
-            result = pRootNodeTwo->is_enabled() || ( ! pRootNodeOne->has_enabled() );
-        } else {
-            if( isNodeOneALeaf && ! isNodeTwoALeaf ){
-                //If pRootNodeOne is a leaf then pRootNodeOne is a subset of pRootNodeTwo if:
-                // 1. pRootNodeOne is disabled or
-                // 2. all of the pRootNodeTwo's leaf nodes are enabled
-                result = ( ! pRootNodeOne->is_enabled() ) || pRootNodeTwo->all_enabled();
-            } else {
-                //Both nodes are non-lead nodes, then pRootNodeOne is a subset of pRootNodeTwo
-                //if sub-trees of pRootNodeOne are subsets of the subtrees of pRootNodeTwo
-                result = subset( pRootNodeOne->left_node(), pRootNodeTwo->left_node() )
-                         &&
-                         subset( pRootNodeOne->right_node(), pRootNodeTwo->right_node() );
-            }
-        }
-    }
-
-    return result;
-}
-
-}
+/***************************************************************************
+ *            geometry/binary_tree.cpp
+ *
+ *  Copyright  2008-20  Ivan S. Zapreev, Pieter Collins
+ *
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+#include <iostream>
+#include <iomanip>
+
+#include "config.hpp"
+
+#include "function/functional.hpp"
+#include "utility/macros.hpp"
+#include "utility/exceptions.hpp"
+#include "utility/stlio.hpp"
+#include "geometry/list_set.hpp"
+#include "geometry/binary_tree.hpp"
+
+
+namespace Ariadne {
+
+
+Bool BinaryTreeNode::has_enabled() const {
+    if( is_leaf() ) {
+        return is_enabled();
+    } else {
+        return ( left_node()->has_enabled() || right_node()->has_enabled() );
+    }
+}
+
+Bool BinaryTreeNode::all_enabled() const {
+    if( is_leaf() ) {
+        return is_enabled();
+    } else {
+        return ( left_node()->all_enabled() && right_node()->all_enabled() );
+    }
+}
+
+Bool BinaryTreeNode::is_enabled( const BinaryWord & path, const Nat position) const {
+    Bool result = false ;
+
+    if( this->is_leaf() ){
+        //If we are in an enabled leaf node then the answer is true.
+        //Since path.size() >= 0, the node defined by the path is a
+        //subnode of an enabled node, thus we return true.
+        result = is_enabled();
+    } else {
+        if( position < path.size() ) {
+            //The path is not complete yet and we are in a
+            //non-leaf node, so we follow the path in the tree
+            if( path[ position ] ) {
+                result = right_node()->is_enabled( path, position + 1 );
+            } else {
+                result = left_node()->is_enabled( path, position + 1 );
+            }
+        } else {
+            //We are somewhere in the tree in a non-leaf node,
+            //this node corresponds to the node given by the path
+            //If both left and right sub trees are fully enabled,
+            //then the cell defined by the binary path is "enabled"
+            //in this tree otherwise it is not.
+            result = all_enabled();
+        }
+    }
+    return result;
+}
+
+Bool BinaryTreeNode::is_equal_nodes( const BinaryTreeNode * pFirstNode, const BinaryTreeNode * pSecondNode ) {
+    Bool result = true;
+
+    if( pFirstNode != pSecondNode){
+        //If the pointers do not reference the same objects
+        if( ( pFirstNode != nullptr ) && ( pSecondNode != nullptr ) ){
+            //And both nodes are not null
+            if( ! ( (* pFirstNode) == ( * pSecondNode ) ) ){
+                //The objects referenced by the pointers do not contain equal data
+                result = false;
+            }
+        } else {
+            //One of the nodes is null and the other is not
+            result = false;
+        }
+    }
+    return result;
+}
+
+Bool BinaryTreeNode::operator==(const BinaryTreeNode & otherNode ) const {
+    return ( ( definitely(this->_isEnabled == otherNode._isEnabled) ) ||
+             ( is_indeterminate( this->_isEnabled     ) &&
+               is_indeterminate( otherNode._isEnabled ) ) )            &&
+        is_equal_nodes( this->_pLeftNode , otherNode._pLeftNode )   &&
+        is_equal_nodes( this->_pRightNode , otherNode._pRightNode );
+}
+
+Void BinaryTreeNode::restrict( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode ){
+    if( ( pThisNode != nullptr ) && ( pOtherNode != nullptr ) ){
+        if( pThisNode->is_leaf() && pOtherNode->is_leaf() ){
+            //Both nodes are leaf nodes: Make a regular AND
+            pThisNode->_isEnabled = (pThisNode->_isEnabled && pOtherNode->_isEnabled);
+        } else {
+            if( !pThisNode->is_leaf() && pOtherNode->is_leaf() ){
+                if( pOtherNode->is_enabled() ){
+                    //DO NOTHING: The restriction will not affect pThisNode
+                } else {
+                    //Turn the node a disabled leaf, since we do AND with false
+                    pThisNode->make_leaf(false);
+                }
+            } else {
+                if( pThisNode->is_leaf() && !pOtherNode->is_leaf() ){
+                    if( pThisNode->is_enabled() ){
+                        //If this node is enabled then copy in the other node
+                        //Since it will be their intersection any ways
+                        pThisNode->copy_from( pOtherNode );
+                    } else {
+                        //DO NOTHING: The restriction is empty in this case
+                        //because this node is a disabled leaf
+                    }
+                } else {
+                    //Both nodes are non-leaf nodes: Go recursively left and right
+                    restrict( pThisNode->_pLeftNode, pOtherNode->_pLeftNode );
+                    restrict( pThisNode->_pRightNode, pOtherNode->_pRightNode );
+                }
+            }
+        }
+    }
+}
+
+Void BinaryTreeNode::remove( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode ) {
+    if( ( pThisNode != nullptr ) && ( pOtherNode != nullptr ) ){
+        if( pThisNode->is_leaf() && pOtherNode->is_leaf() ){
+            if( pThisNode->is_enabled() && pOtherNode->is_enabled() ){
+                //Both nodes are enabled leaf nodes: Make a regular subtraction, i.e. set the false
+                pThisNode->_isEnabled = false;
+            } else {
+                //DO NOTHING: In all other cases there is nothing to be done
+            }
+        } else {
+            if( !pThisNode->is_leaf() && pOtherNode->is_leaf() ){
+                if( pOtherNode->is_enabled() ){
+                    //Turn the node into a disabled leaf, since we subtract all below
+                    pThisNode->make_leaf(false);
+                } else {
+                    //DO NOTHING: We are trying to remove a disabled node
+                }
+            } else {
+                if( pThisNode->is_leaf() ) {
+                    if( pThisNode->is_enabled() ){
+                        //This is an enabled leaf node and so we might subtract smth from it
+                        //The pOtherNode is not a leaf, due to previous checks so we split
+                        //pThisNode and then do the recursion as in case on two non-leaf nodes
+                        pThisNode->split();
+                    } else {
+                        //DO NOTHING: We are trying to remove from a disabled leaf node. Whatever
+                        //we are trying to remove, will not have any effect on the result. We return
+                        //because in all remaining cases we need to do recursion for sub trees.
+                        return;
+                    }
+                } else {
+                    //We will have to do the recursion to remove the leaf nodes
+                }
+                //Both nodes are non-leaf nodes now: Go recursively left and right
+                remove( pThisNode->_pLeftNode, pOtherNode->_pLeftNode );
+                remove( pThisNode->_pRightNode, pOtherNode->_pRightNode );
+            }
+        }
+    }
+}
+
+Void BinaryTreeNode::restore_node( BinaryTreeNode * pCurrentNode, Nat & arr_index, Nat & leaf_counter,
+                                   const BooleanArray& theTree, const BooleanArray& theEnabledCells) {
+    //If we are not done with the the tree yet
+    if( arr_index < theTree.size() ) {
+        //If we are in a non-leaf node then go further
+        if( theTree[arr_index] ) {
+            pCurrentNode->split();
+            //IVAN S. ZAPREEV:
+            //NOTE: We assume a correct input, i.e. both children are present
+            //NOTE: We increase the arr_index before calling recursion for each
+            //      of the subnodes of the tree
+            restore_node( pCurrentNode->_pLeftNode, ++arr_index, leaf_counter, theTree, theEnabledCells );
+            restore_node( pCurrentNode->_pRightNode, ++arr_index, leaf_counter, theTree, theEnabledCells );
+        } else {
+            //If we are in a leaf node then chek if it needs to be enabled/disabled
+            pCurrentNode->_isEnabled = ValidatedKleenean(theEnabledCells[leaf_counter]);
+
+            leaf_counter++;
+        }
+    }
+}
+
+Void BinaryTreeNode::mince_node(BinaryTreeNode * pCurrentNode, const Nat depth) {
+    //If we need to mince further.
+    if( depth > 0 ){
+        //If the node is present, i.e. the parent is not a disabled node.
+        if( pCurrentNode != nullptr ){
+            //If the current node is not disabled: enabled (leaf) or
+            //indeterminate (non-leaf) then there is a work to do.
+            if( ! pCurrentNode->is_disabled() ){
+                pCurrentNode->split();
+
+                const Nat remaining_depth = depth - 1;
+
+                mince_node( pCurrentNode->_pLeftNode, remaining_depth );
+                mince_node( pCurrentNode->_pRightNode, remaining_depth );
+            }
+        } else {
+            throw std::runtime_error( ARIADNE_PRETTY_FUNCTION );
+        }
+    }
+}
+
+Void BinaryTreeNode::recombine_node(BinaryTreeNode * pCurrentNode) {
+    //Just a safety check
+    if( pCurrentNode != nullptr ){
+        //If it is not a leaf node then it should have both of it's subnodes != nullptr
+        if( ! pCurrentNode->is_leaf() ){
+            BinaryTreeNode * pLeftNode = pCurrentNode->_pLeftNode;
+            BinaryTreeNode * pRightNode = pCurrentNode->_pRightNode;
+
+            //This recursive calls ensure that we do recombination from the bottom up
+            recombine_node( pLeftNode );
+            recombine_node( pRightNode );
+
+            //Do the recombination for the leaf nodes rooted to pCurrentNode
+            if( pLeftNode->is_leaf() && pRightNode->is_leaf() ){
+                if( definitely(pLeftNode->_isEnabled == pRightNode->_isEnabled) ){
+                    //Make it the leaf node with the derived _isEnabled value
+                    pCurrentNode->make_leaf( pLeftNode->_isEnabled );
+                }
+            }
+        }
+    } else {
+        throw std::runtime_error( ARIADNE_PRETTY_FUNCTION );
+    }
+}
+
+Nat BinaryTreeNode::depth() const {
+    //The depth of the sub-tree rooted to this node
+    Nat result;
+
+    if( ! this->is_leaf() ){
+        //If the node is not a leaf, compute the depth of the sub-trees and take the maximum + 1
+        //Note that, both left and right sub-nodes must exist, by to the way we construct the tree
+        result = std::max(this->left_node()->depth(), this->right_node()->depth() ) + 1;
+    } else {
+        //If the node is a leaf then the depth of the sub-tree is zero
+        result = 0;
+    }
+
+    return result;
+}
+
+SizeType BinaryTreeNode::count_enabled_leaf_nodes( const BinaryTreeNode* pNode ) {
+    if(pNode->is_leaf()) {
+        return pNode->is_enabled() ? 1u : 0u;
+    } else {
+        return count_enabled_leaf_nodes(pNode->left_node())
+            + count_enabled_leaf_nodes(pNode->right_node());
+    }
+}
+
+Void BinaryTreeNode::tree_to_binary_words( BinaryWord & tree, BinaryWord & leaves ) const {
+    if( is_leaf() ) {
+        tree.push_back( false );
+        leaves.push_back( definitely( _isEnabled ) );
+    } else {
+        tree.push_back( true );
+        _pLeftNode->tree_to_binary_words( tree, leaves );
+        _pRightNode->tree_to_binary_words( tree, leaves );
+    }
+}
+
+Void BinaryTreeNode::add_enabled( const BinaryTreeNode * pOtherSubTree, const BinaryWord & path ){
+    //1. Locate the node, follow the path until it's end or until we meet an enabled node
+    BinaryTreeNode * pCurrentSubTree = this;
+    Nat position = 0;
+    while( ( position < path.size() ) && ! pCurrentSubTree->is_enabled() ){
+        //Split the node, if it is not a leaf it will not be changed
+        pCurrentSubTree->split();
+        //Follow the path step
+        pCurrentSubTree = ( path[position] ? pCurrentSubTree->_pRightNode : pCurrentSubTree->_pLeftNode );
+        //Go to the next path element
+        position ++;
+    }
+    //2. Now we are in the right node of this tree or we have met an enabled node on the path,
+    //   Thus, if this node is not enabled then we go on with adding subTree.
+    if( ! pCurrentSubTree->is_enabled() ){
+        add_enabled( pCurrentSubTree, pOtherSubTree );
+    }
+}
+
+Void BinaryTreeNode::add_enabled( BinaryTreeNode* pToTreeRoot, const BinaryTreeNode* pFromTreeRoot ){
+    if( pToTreeRoot->is_leaf() ){
+        //If we are adding something to a leaf node
+        if( pToTreeRoot->is_enabled() ){
+            //Do nothing, adding to an enabled leaf node (nothing new can be added)
+        } else {
+            if( pFromTreeRoot->is_leaf() ){
+                //If we are adding something to a disabled leaf node
+                if( pFromTreeRoot->is_enabled() ){
+                    //Adding an enabled node: Enable the node of pToTreeRoot
+                    pToTreeRoot->set_enabled();
+                } else {
+                    //Do nothing, adding a disabled leaf node to a disabled leaf node
+                }
+            } else {
+                //Adding a subtree pFromTreeRoot to a disabled leaf node pToTreeRoot
+                //Using copy constructors here, to avoid memory collisions
+                pToTreeRoot->_pLeftNode = new BinaryTreeNode( *pFromTreeRoot->_pLeftNode );
+                pToTreeRoot->_pRightNode = new BinaryTreeNode( *pFromTreeRoot->_pRightNode );
+                //Set the leaf node as unknown, since we do not know what is below
+                pToTreeRoot->set_unknown();
+            }
+        }
+    } else {
+        //If we are adding something to a non-leaf node
+        if( pFromTreeRoot->is_leaf() ){
+            //Adding a leaf to a non-leaf node
+            if( pFromTreeRoot->is_enabled() ){
+                //Make the enabled leaf node
+                pToTreeRoot->make_leaf(true);
+            } else {
+                //Do nothing, adding a disabled node to a sub tree (nothing new can be added)
+            }
+        } else {
+            //Adding a non-leaf node to a non-leaf node, do recursion
+            add_enabled( pToTreeRoot->_pLeftNode, pFromTreeRoot->_pLeftNode );
+            add_enabled( pToTreeRoot->_pRightNode, pFromTreeRoot->_pRightNode );
+        }
+    }
+}
+
+Void BinaryTreeNode::add_enabled( BinaryTreeNode* pRootTreeNode, const BinaryWord& path, const Nat position ) {
+    if( position < path.size() ) {
+        //There is still something to do
+        if( pRootTreeNode->is_leaf() ){
+            if( pRootTreeNode->is_enabled() ) {
+                //This leaf is enabled so adding path will not change anything
+                return;
+            } else {
+                //Split the disabled node
+                pRootTreeNode->split();
+            }
+        }
+        //Go left-right depenting on the specified path
+        add_enabled( ( path[position] ? pRootTreeNode->_pRightNode : pRootTreeNode->_pLeftNode ), path, position + 1 );
+    } else {
+        //We are at the destination node
+        if( pRootTreeNode->is_leaf() ){
+            //Mark the node as enabled
+            pRootTreeNode->set_enabled();
+        } else {
+            //If this is not a leaf node, then make it leaf
+            //The leafs below are not interesting any more
+            pRootTreeNode->make_leaf(true);
+        }
+    }
+}
+
+BinaryTreeNode * BinaryTreeNode::prepend_tree( const BinaryWord & rootNodePath, BinaryTreeNode * oldRootNode){
+    //With an empty path there is nothing to put above the old root
+    if( rootNodePath.empty() ) { return oldRootNode; }
+    //Create the new binary tree node
+    BinaryTreeNode * pRootBinaryTreeNode = new BinaryTreeNode(), * pCurrentBinaryTreeNode = pRootBinaryTreeNode;
+    Nat i = 0;
+    //Loop until the last path element, because it has to be treated in a different manner
+    for( ; i < ( rootNodePath.size() - 1 ) ; i++ ){
+        //Split the node
+        pCurrentBinaryTreeNode->split();
+        //Move to the appropriate subnode
+        pCurrentBinaryTreeNode = (rootNodePath[i]) ? pCurrentBinaryTreeNode->_pRightNode : pCurrentBinaryTreeNode->_pLeftNode;
+    }
+    //Split the node for the last time
+    pCurrentBinaryTreeNode->split();
+    //Substitute the new primary cell with the one we had before
+    if( rootNodePath[i] ){
+        delete pCurrentBinaryTreeNode->_pRightNode;
+        pCurrentBinaryTreeNode->_pRightNode = oldRootNode;
+    } else {
+        delete pCurrentBinaryTreeNode->_pLeftNode;
+        pCurrentBinaryTreeNode->_pLeftNode = oldRootNode;
+    }
+    return pRootBinaryTreeNode;
+}
+
+Bool BinaryTreeNode::intersect( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo ) {
+    Bool result = false;
+
+    Bool isNodeOneALeaf = pRootNodeOne->is_leaf();
+    Bool isNodeTwoALeaf = pRootNodeTwo->is_leaf();
+
+    if( isNodeOneALeaf && isNodeTwoALeaf ) {
+        //If both nodes are leaves, then the trees overlap if only both of the nodes are enabled
+        result = pRootNodeOne->is_enabled() && pRootNodeTwo->is_enabled();
+    } else {
+        if( ! isNodeOneALeaf && isNodeTwoALeaf ){
+            //If the second node is a leaf then the trees overlap is it is enabled
+            //and the first node has an enabled sub-node
+            result = pRootNodeTwo->is_enabled() && pRootNodeOne->has_enabled();
+        } else {
+            if( isNodeOneALeaf && ! isNodeTwoALeaf ){
+                //If the first node is a leaf then the trees overlap is it is enabled
+                //and the second node has an enabled sub-node
+                result = pRootNodeOne->is_enabled() && pRootNodeTwo->has_enabled();
+            } else {
+                //Both nodes are non-lead nodes, then the trees overlap if
+                //either their left or right branches overlap
+                result = intersect( pRootNodeOne->left_node(), pRootNodeTwo->left_node() ) ||
+                    intersect( pRootNodeOne->right_node(), pRootNodeTwo->right_node() );
+            }
+        }
+    }
+
+    return result;
+}
+
+Bool BinaryTreeNode::subset( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo ) {
+    Bool result = false;
+
+    Bool isNodeOneALeaf = pRootNodeOne->is_leaf();
+    Bool isNodeTwoALeaf = pRootNodeTwo->is_leaf();
+
+    if( isNodeOneALeaf && isNodeTwoALeaf ) {
+        //If both nodes are leaves, then pRootNodeOne is a subset of pRootNodeTwo if:
+        // 1. both of the nodes are enabled or
+        // 2. pRootNodeOne is disabled (represents an empty set)
+        result = ( ! pRootNodeOne->is_enabled() ) || pRootNodeTwo->is_enabled();
+    } else {
+        if( ! isNodeOneALeaf && isNodeTwoALeaf ){
+            //If pRootNodeTwo is a leaf then pRootNodeOne is a subset of pRootNodeTwo if:
+            // 1. pRootNodeTwo is enabled or
+            // 2. pRootNodeOne has no enabled sub-nodes
+            result = pRootNodeTwo->is_enabled() || ( ! pRootNodeOne->has_enabled() );
+        } else {
+            if( isNodeOneALeaf && ! isNodeTwoALeaf ){
+                //If pRootNodeOne is a leaf then pRootNodeOne is a subset of pRootNodeTwo if:
+                // 1. pRootNodeOne is disabled or
+                // 2. all of the pRootNodeTwo's leaf nodes are enabled
+                result = ( ! pRootNodeOne->is_enabled() ) || pRootNodeTwo->all_enabled();
+            } else {
+                //Both nodes are non-lead nodes, then pRootNodeOne is a subset of pRootNodeTwo
+                //if sub-trees of pRootNodeOne are subsets of the subtrees of pRootNodeTwo
+                result = subset( pRootNodeOne->left_node(), pRootNodeTwo->left_node() )
+                         &&
+                         subset( pRootNodeOne->right_node(), pRootNodeTwo->right_node() );
+            }
+        }
+    }
+
+    return result;
+}
+
+}
diff --git a/source/geometry/binary_tree.hpp b/source/geometry/binary_tree.hpp
index a4c595d..3bcdd77 100644
--- a/source/geometry/binary_tree.hpp
+++ b/source/geometry/binary_tree.hpp
@@ -1,454 +1,454 @@
-/***************************************************************************
- *            geometry/binary_tree.hpp
- *
- *  Copyright  2008-20  Ivan S. Zapreev, Pieter Collins
- *
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-#ifndef ARIADNE_BINARY_TREE_HPP
-#define ARIADNE_BINARY_TREE_HPP
-
-
-#include <iostream>
-#include <iomanip>
-
-#include "function/functional.hpp"
-#include "utility/macros.hpp"
-#include "utility/exceptions.hpp"
-#include "utility/stlio.hpp"
-#include "utility/binary_word.hpp"
-#include "geometry/list_set.hpp"
-
-
-namespace Ariadne {
-
-//! \brief The binary-tree node operation is not allowed on a non-leaf node.
-class NotALeafNodeException : public std::logic_error {
-  public:
-    NotALeafNodeException(const StringType& str) : std::logic_error(str) { }
-};
-
-//! \brief The binary-tree node operation is not allowed on a leaf node.
-class IsALeafNodeException : public std::logic_error {
-  public:
-    IsALeafNodeException(const StringType& str) : std::logic_error(str) { }
-};
-
-typedef std::vector<Bool> BooleanArray;
-
-//***************************************BinaryTreeNode************************************/
-
-//! \brief The binary tree node.
-//!
-//! This node is to be used in a binary tree designed for subdividing the state
-//! space into enabled and disabled cells. This is required for representing
-//! subsets of the state space.
-//!
-//! \b Storage: We only store pointers to the left and right subtrees and the ValidatedKleenean
-//! value indicating whether this cell is enabled/disabled or we do not know.
-class BinaryTreeNode {
-  protected:
-    //! \brief Defines whether the given node of the tree is on/off or we do not know*/
-    ValidatedKleenean _isEnabled;
-
-    /*! \brief The left and right subnodes of the tree. Note that,
-     * \a pLeftNode == \a nullptr iff \a pRightNode == \a nullptr. The latter
-     * is allowed iff \a _isEnabled == \a TRUE or \a _isEnabled == \a FALSE,
-     * i.e. the node can be a leaf.
-     */
-    BinaryTreeNode* _pLeftNode;
-    BinaryTreeNode* _pRightNode;
-
-    //! \brief This method splits the enabled subtrees of the tree rooted to
-    //! \a pCurrentNode in such a way that the tree depth becomes \a depth.
-    //! If the initial tree depth is greater than \a depth then nothing is done.
-    Void mince_node(BinaryTreeNode* pCurrentNode, const Nat depth);
-
-    //! \brief This method recombined the sub tree nodes rooted to \a pCurrentNode.
-    //! Note that, the two leaf nodes with the same parent are removed if they have
-    //! the same value of isEnabled fields.
-    Void recombine_node(BinaryTreeNode * pCurrentNode);
-
-    //! \brief This method is used for recursive restoration of the binary tree from
-    //! the used data, i.e. \a theTree and \a theEnabledCells. It is used in the
-    //! constructor \a BinaryTreeNode( const BooleanArray& , const BooleanArray& )
-    Void restore_node( BinaryTreeNode * pCurrentNode, Nat & arr_index, Nat & leaf_counter,
-                       const BooleanArray& theTree, const BooleanArray& theEnabledCells);
-
-    //! \brief This method is used in constructors for the node initialization
-    Void init( ValidatedKleenean isEnabled, BinaryTreeNode* pLeftNode, BinaryTreeNode* pRightNode );
-
-  public:
-    //!@{
-    //! \name Constructors
-
-    //! \brief Construct a tree node.
-      explicit BinaryTreeNode(const ValidatedKleenean _isEnabled = false );
-
-    //! \brief The copy constructor.
-    //! The the node and all it's sub nodes are copied.
-    explicit BinaryTreeNode(const BinaryTreeNode& theTreeNode);
-
-    //! \brief Constructs a binary tree from the boolean arrays. \a theTree defines
-    //! the tree structure, \a theEnabledCells defines the tree nodes.
-    //! IVAN S. ZAPREEV:
-    //! WARNING: We assume that every node has either no children or both of them!
-    //! NOTE: The dinary data of the tree is organized in the following way:
-    //!          1      The \a theTree contains Depth first search lay out of the tree,
-    //!         / \     where 1 stands for the non-leaf node and 0 for a leaf node, we
-    //!        /   \    always visit the left su-node first, e.g. the tree on the left
-    //!       2     5   is encodes the Array:     [1, 1, 0, 0, 0]
-    //!      / \        where the corresponding    ^  ^  ^  ^  ^
-    //!     /   \       tree nodes are:            1  2  3  4  5
-    //!    3     4      \a theEnabledCells contains true/false values for the leaf nodes
-    //! of the tree. Their order is the same as in \a theTree, e.g. here it is: 3,4,5
-    explicit BinaryTreeNode( const BooleanArray& theTree, const BooleanArray& theEnabledCells );
-
-    //!@}
-
-    ~BinaryTreeNode();
-
-    //!@{
-    //! \name Properties
-
-    //! \brief Returns true if the node is marked as enabled, otherwise false
-    Bool is_enabled() const;
-
-    //! \brief Returns true if some of the leaf nodes in the tree rooted to this node are enabled, otherwise false
-    Bool has_enabled() const;
-
-    //! \brief Returns true if all leaf nodes in the tree rooted to this node are enabled, otherwise false
-    Bool all_enabled() const;
-
-    //! \brief This method returns true if the given path defines a node in the tree that is either enabled
-    //! or is in a "virtual" subtree of some enabled node (note that enabled nodes can only be leafs).
-    //! Note that: \a path is treated as if it is rooted to this node, we assume that the path starts
-    //! from position \a position of \a path. The parameter \a position is used for recursive calls only.
-    Bool is_enabled( const BinaryWord & path, const Nat position = 0) const;
-
-    //! \brief Returns true if the node is marked as disabled, otherwise false
-    Bool is_disabled() const;
-
-    //! \brief Returns true if the node is a leaf (pLeftNode == nullptr && pRightNode == nullptr) otherwise false
-    Bool is_leaf() const;
-
-    //! \brief Return the left or right sub-node
-    BinaryTreeNode * child_node(Bool left_or_right) const;
-
-    //! \brief Return the left sub-node
-    BinaryTreeNode * left_node() const;
-
-    //! \brief Return the right sub-node
-    BinaryTreeNode * right_node() const;
-
-    //! \brief Returns the depth of the sub-tree rooted to the given node, i.e. the depth of it's deepest node
-    Nat depth() const;
-
-    //! \brief Allows to compare to binaty tree nodes
-    Bool operator==(const BinaryTreeNode & otherNode ) const;
-
-    //! \brief Marks the node as enabled or disabled.
-    Void set(Bool all_enabled_or_all_disabled);
-
-    static Bool is_equal_nodes( const BinaryTreeNode * pFirstNode, const BinaryTreeNode * pSecondNode );
-
-    //!@}
-
-    //!@{
-    //! \name Leaf Operations
-
-    //! \brief This method makes the node to become a leaf node with the enabled value : \a is_enabled
-    //! NOTE: the leat and the right sub-trees (are deallocated.
-    //! WARNING: this method MUST NOT be called on a non-leaf node!!!
-    Void make_leaf( ValidatedKleenean is_enabled );
-
-    //! \brief Marks the leaf node as enabled, otherwise they through \a NotALeafNodeEsception
-    Void set_enabled();
-
-    //! \brief Marks the leaf node as disabled, otherwise they through \a NotALeafNodeEsception
-    Void set_disabled();
-
-    //! \brief Marks the node as neither enabled nor disabled, is only applicable to non-leaf nodes.
-    //! When applied to a leaf node, throws IsALeafNodeException.
-    Void set_unknown();
-
-    //! \brief Splits the leaf node, i.e. adds two subnodes with the _isEnabled field value inherited from the parent node.
-    //! The parent's _isEnabled is set to intermediate, because the subsequent operation on the subtree might enable/disable
-    //! subnodes and we do not want to keep track of these changes. If the node is not a leaf then nothing is done.
-    Void split();
-
-    //! \brief This method splits the enabled subtrees of the tree rooted to
-    //! this node in such a way that the tree depth becomes \a depth.
-    //! If the initial tree depth is greater than \a depth then nothing is done.
-    Void mince(const Nat depth);
-
-    //!@}
-
-    //!@{
-    //! \name
-
-    //! \brief Allows to assign one binary tree node to the other, this is done by copying
-    //! the nodes value and the sub-trees. The sub-trees of this node are deallocated.
-    BinaryTreeNode& operator=(const BinaryTreeNode & otherNode );
-
-    //! \brief Copy all the data (including the sub-nodes) from the node pointed by \a pOtherNode into the given node.
-    //! Note that here we will create copies of the sub nodes, and NOT just copy pointers to them!
-    Void copy_from( const BinaryTreeNode * pOtherNode );
-
-    //! \brief This method recombined the sub tree nodes. Note that, the two leaf nodes with
-    //! the same parent are removed if they have the same value of isEnabled fields.
-    Void recombine();
-
-    //! \brief Stores the binary tree in a form of two arrays, their structure is the same as needed for
-    //! the BinaryTreeNode( const BooleanArray& , const BooleanArray&  ) constructor
-    Void tree_to_binary_words( BinaryWord & tree, BinaryWord & leaves ) const;
-
-    //! \brief Stores the binary tree node as a string*/
-    String node_to_string() const;
-
-    //! \brief Finds(creates) the leaf node defined by the \a path and marks it as enabled.
-    //! If some prefix of the \a path references an enabled node then nothing is done.
-    Void add_enabled( const BinaryWord & path );
-
-    //! \brief This method adjoins the enabled nodes of \a subTree to this tree.
-    //! Note that, the position of the root node of \a subTree within this
-    //! tree is defined by path.
-    Void add_enabled( const BinaryTreeNode * pOtherSubTree, const BinaryWord & path );
-
-    //! \brief This method merges \a pFromTreeRoot into \a pToTreeRoot.
-    //! The enabled nodes of the former tree are added to the latter tree.
-    //! If in the latter tree there is an enabled leaf node and in the former
-    //! tree the corresponding node is not a leaf, then this node of the latter
-    //! tree stays intact. If on the other hand we have a non-leaf node in
-    //! \a pToTreeRoot and we are adding to it an enabled node of \a pFromTreeRoot
-    //! then we just "substitute" the former one with the latter.
-    //! NOTE: 1. This function is recursive. 2. No pointers are copied between
-    //! \a pToTreeRoot and \a pFromTreeRoot.
-    Void add_enabled( BinaryTreeNode* pToTreeRoot, const BinaryTreeNode* pFromTreeRoot );
-
-    //! \brief Starting in the \a pNode node as at the root, this method counts
-    //! the number of enabled leaf nodes in the subtree
-    //! rooted at pNode.
-    static SizeType count_enabled_leaf_nodes( const BinaryTreeNode* pNode );
-
-    //! \brief Starting in the \a pRootTreeNode node as at the root, this method finds(creates)
-    //! the leaf node defined by the \a path and marks it as enabled. If some prefix of the \a path
-    //! references an enabled node then nothing is done.
-    //! NOTE: This is a recursive method on the position (\a position) in the binary path (\a path).
-    //! Therefore, the initial evaluate of this method should be done with \a position == 0;
-    static Void add_enabled( BinaryTreeNode* pRootTreeNode, const BinaryWord& path, const Nat position = 0 );
-
-    //! \brief Creates a binary tree of the height rootNodePath.size(), puts the subtree oldRootNode
-    //! into the node defined by the path \a rootNodePath, returns the root node of the extended tree.
-    static BinaryTreeNode * prepend_tree( const BinaryWord & rootNodePath, BinaryTreeNode * oldRootNode);
-
-    //! \brief This method restricts \a pThisNode to \a pOtherNode.
-    //! In essance we do the inplace AND on the tree node pThisNode.
-    //! Note that, this method is recursive.
-    static Void restrict( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode );
-
-    //! \brief This method removed enabled nodes of \a pOtherNode from \a pThisNode.
-    //! Note that, this method is recursive.
-    static Void remove( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode );
-
-    //! \brief checks if two trees intersect in a set-theory sence.
-    //! I.e. we assume that pRootNodeOne and pRootNodeTwo correspond to the same (virtual) root
-    //! and then we see if the enabled leaf node of one tree contain enabled leaf nodes of
-    //! another tree as their (virtual) children.
-    static Bool intersect( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo );
-
-    //! \brief checks if the tree pRootNodeOne is a subset of the tree pRootNodeTwo, in a set-theory sence.
-    //! I.e. we assume that pRootNodeOne and pRootNodeTwo correspond to the same (virtual) root
-    //! and then we see if every enabled leaf node of pRootNodeOne is contained in the enabled leaf nodes of
-    //! pRootNodeTwo, or it is covered by the enabled leaf nodes of pRootNodeTwo. When we _write, contained and
-    //! covered then we mean: is a subnode in the (virtual) tree and all it's subnodes in the (virtual) tree.
-    static Bool subset( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo );
-
-    //!@}
-};
-
-//***************************************BinaryTreeNode**********************************************/
-
-inline Void BinaryTreeNode::init( ValidatedKleenean isEnabled, BinaryTreeNode* pLeftNode, BinaryTreeNode* pRightNode ) {
-    _isEnabled = isEnabled;
-    _pLeftNode = pLeftNode;
-    _pRightNode = pRightNode;
-}
-
-inline BinaryTreeNode::BinaryTreeNode(const ValidatedKleenean isEnabled) {
-    init( isEnabled, nullptr, nullptr );
-}
-
-inline BinaryTreeNode::BinaryTreeNode(const BinaryTreeNode& theTreeNode) {
-    if( (theTreeNode._pLeftNode) != nullptr && ( theTreeNode._pRightNode != nullptr ) ) {
-        init( theTreeNode._isEnabled, new BinaryTreeNode( *theTreeNode._pLeftNode ), new BinaryTreeNode( *theTreeNode._pRightNode ) );
-    } else {
-        //NOTE: We do not allow for nodes where one leaf is nullptr and another is not
-        init( theTreeNode._isEnabled, nullptr, nullptr );
-    }
-}
-
-inline BinaryTreeNode::BinaryTreeNode( const BooleanArray& theTree, const BooleanArray& theEnabledCells ) {
-    //Make default initialization
-    init( false, nullptr, nullptr ) ;
-
-    //If the tree is not empry and there are enabled leafs then do the thing
-    if( ( theTree.size() ) > 0 && ( theEnabledCells.size() > 0 ) ) {
-        Nat arr_index = 0, leaf_counter = 0;
-        restore_node( this, arr_index, leaf_counter, theTree, theEnabledCells );
-    } else {
-        //Otherwise settle with one disabled node
-        this->set_disabled();
-    }
-}
-
-inline BinaryTreeNode::~BinaryTreeNode() {
-    if( _pLeftNode != nullptr ) {
-        delete _pLeftNode;
-    }
-    if( _pRightNode != nullptr ) {
-        delete _pRightNode;
-    }
-}
-
-inline Bool BinaryTreeNode::is_enabled() const {
-    return definitely(_isEnabled);
-}
-
-inline Bool BinaryTreeNode::is_disabled() const{
-    return ! possibly(_isEnabled) ;
-}
-
-inline Bool BinaryTreeNode::is_leaf() const{
-    return (_pLeftNode == nullptr) && (_pRightNode == nullptr);
-}
-
-inline BinaryTreeNode * BinaryTreeNode::child_node(Bool left_or_right) const {
-    return left_or_right ? _pRightNode : _pLeftNode;
-}
-
-inline BinaryTreeNode * BinaryTreeNode::left_node() const {
-    return _pLeftNode;
-}
-
-inline BinaryTreeNode * BinaryTreeNode::right_node() const {
-    return _pRightNode;
-}
-
-inline Void BinaryTreeNode::set(Bool enabled_or_disabled) {
-    _isEnabled = enabled_or_disabled;
-    if( _pLeftNode != nullptr ) {
-        delete _pLeftNode; _pLeftNode = nullptr;
-    }
-    if( _pRightNode != nullptr ) {
-        delete _pRightNode; _pRightNode = nullptr;
-    }
-}
-
-inline Void BinaryTreeNode::set_enabled() {
-    if ( is_leaf() ) {
-        _isEnabled = true;
-    } else {
-        throw NotALeafNodeException(ARIADNE_PRETTY_FUNCTION);
-    }
-}
-
-inline Void BinaryTreeNode::copy_from( const BinaryTreeNode * pOtherNode ) {
-    if( pOtherNode != nullptr ) {
-        //Copy the children before deleting our own, since the other node may be one of them (or this node itself)
-        BinaryTreeNode * pNewLeftNode = ( pOtherNode->_pLeftNode != nullptr ) ? new BinaryTreeNode( * (pOtherNode->_pLeftNode) ) : nullptr;
-        BinaryTreeNode * pNewRightNode = ( pOtherNode->_pRightNode != nullptr ) ? new BinaryTreeNode( * (pOtherNode->_pRightNode) ) : nullptr;
-        _isEnabled = pOtherNode->_isEnabled;
-        if( _pLeftNode != nullptr) { delete _pLeftNode; }
-        if( _pRightNode != nullptr) { delete _pRightNode; }
-        _pLeftNode = pNewLeftNode;
-        _pRightNode = pNewRightNode;
-    }
-}
-
-inline Void BinaryTreeNode::set_disabled() {
-    if ( is_leaf() ) {
-        _isEnabled = false;
-    } else {
-        throw NotALeafNodeException(ARIADNE_PRETTY_FUNCTION);
-    }
-}
-
-inline Void BinaryTreeNode::set_unknown() {
-    if ( ! is_leaf() ) {
-        _isEnabled = indeterminate;
-    } else {
-        throw IsALeafNodeException(ARIADNE_PRETTY_FUNCTION);
-    }
-}
-
-inline Void BinaryTreeNode::make_leaf(ValidatedKleenean is_enabled ) {
-    _isEnabled = is_enabled;
-    if( _pLeftNode != nullptr ) { delete _pLeftNode; _pLeftNode= nullptr; }
-    if( _pRightNode != nullptr ) { delete _pRightNode; _pRightNode= nullptr; }
-}
-
-inline Void BinaryTreeNode::split() {
-    if ( is_leaf() ) {
-        _pLeftNode  = new BinaryTreeNode(_isEnabled);
-        _pRightNode = new BinaryTreeNode(_isEnabled);
-        set_unknown();
-    }
-}
-
-inline Void BinaryTreeNode::add_enabled( const BinaryWord& path ) {
-    add_enabled( this, path, 0 );
-}
-
-inline Void BinaryTreeNode::mince(const Nat depth) {
-    mince_node(this, depth);
-}
-
-inline Void BinaryTreeNode::recombine() {
-    recombine_node(this);
-}
-
-inline String BinaryTreeNode::node_to_string() const {
-    std::stringstream tmp_stream;
-    tmp_stream << "BinaryTreeNode( isLeaf = " << is_leaf() << ", isEnabled = " << is_enabled() << ", isDisabled = " << is_disabled() << " )";
-    return tmp_stream.str();
-}
-
-inline BinaryTreeNode& BinaryTreeNode::operator=( const BinaryTreeNode & otherNode ) {
-    this->copy_from( &otherNode );
-    return *this;
-}
-
-//*************************************FRIENDS OF BinaryTreeNode***************************************/
-
-//! \brief Stream insertion operator, prints out two binary arrays, one is the tree structure
-//! and the other is the true/false (enabled/disabled) values for the leaf nodes
-inline OutputStream& operator<<(OutputStream& output_stream, const BinaryTreeNode & binary_tree ) {
-    BinaryWord tree, leaves;
-    binary_tree.tree_to_binary_words( tree, leaves );
-    return output_stream << "BinaryTreeNode( Tree: " << tree << ", Leaves: " << leaves << ")";
-}
-
-
-} // namespace Ariadne
-
-
-#endif /* ARIADNE_BINARY_TREE_HPP */
+/***************************************************************************
+ *            geometry/binary_tree.hpp
+ *
+ *  Copyright  2008-20  Ivan S. Zapreev, Pieter Collins
+ *
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+#ifndef ARIADNE_BINARY_TREE_HPP
+#define ARIADNE_BINARY_TREE_HPP
+
+
+#include <iostream>
+#include <iomanip>
+
+#include "function/functional.hpp"
+#include "utility/macros.hpp"
+#include "utility/exceptions.hpp"
+#include "utility/stlio.hpp"
+#include "utility/binary_word.hpp"
+#include "geometry/list_set.hpp"
+
+
+namespace Ariadne {
+
+//! \brief The binary-tree node operation is not allowed on a non-leaf node.
+class NotALeafNodeException : public std::logic_error {
+  public:
+    NotALeafNodeException(const StringType& str) : std::logic_error(str) { }
+};
+
+//! \brief The binary-tree node operation is not allowed on a leaf node.
+class IsALeafNodeException : public std::logic_error {
+  public:
+    IsALeafNodeException(const StringType& str) : std::logic_error(str) { }
+};
+
+typedef std::vector<Bool> BooleanArray;
+
+//***************************************BinaryTreeNode************************************/
+
+//! \brief The binary tree node.
+//!
+//! This node is to be used in a binary tree designed for subdividing the state
+//! space into enabled and disabled cells. This is required for representing
+//! subsets of the state space.
+//!
+//! \b Storage: We only store pointers to the left and right subtrees and the ValidatedKleenean
+//! value indicating whether this cell is enabled/disabled or we do not know.
+class BinaryTreeNode {
+  protected:
+    //! \brief Defines whether the given node of the tree is on/off or we do not know*/
+    ValidatedKleenean _isEnabled;
+
+    /*! \brief The left and right subnodes of the tree. Note that,
+     * \a pLeftNode == \a nullptr iff \a pRightNode == \a nullptr. The latter
+     * is allowed iff \a _isEnabled == \a TRUE or \a _isEnabled == \a FALSE,
+     * i.e. the node can be a leaf.
+     */
+    BinaryTreeNode* _pLeftNode;
+    BinaryTreeNode* _pRightNode;
+
+    //! \brief This method splits the enabled subtrees of the tree rooted to
+    //! \a pCurrentNode in such a way that the tree depth becomes \a depth.
+    //! If the initial tree depth is greater than \a depth then nothing is done.
+    Void mince_node(BinaryTreeNode* pCurrentNode, const Nat depth);
+
+    //! \brief This method recombined the sub tree nodes rooted to \a pCurrentNode.
+    //! Note that, the two leaf nodes with the same parent are removed if they have
+    //! the same value of isEnabled fields.
+    Void recombine_node(BinaryTreeNode * pCurrentNode);
+
+    //! \brief This method is used for recursive restoration of the binary tree from
+    //! the used data, i.e. \a theTree and \a theEnabledCells. It is used in the
+    //! constructor \a BinaryTreeNode( const BooleanArray& , const BooleanArray& )
+    Void restore_node( BinaryTreeNode * pCurrentNode, Nat & arr_index, Nat & leaf_counter,
+                       const BooleanArray& theTree, const BooleanArray& theEnabledCells);
+
+    //! \brief This method is used in constructors for the node initialization
+    Void init( ValidatedKleenean isEnabled, BinaryTreeNode* pLeftNode, BinaryTreeNode* pRightNode );
+
+  public:
+    //!@{
+    //! \name Constructors
+
+    //! \brief Construct a tree node.
+      explicit BinaryTreeNode(const ValidatedKleenean _isEnabled = false );
+
+    //! \brief The copy constructor.
+    //! The the node and all it's sub nodes are copied.
+    explicit BinaryTreeNode(const BinaryTreeNode& theTreeNode);
+
+    //! \brief Constructs a binary tree from the boolean arrays. \a theTree defines
+    //! the tree structure, \a theEnabledCells defines the tree nodes.
+    //! IVAN S. ZAPREEV:
+    //! WARNING: We assume that every node has either no children or both of them!
+    //! NOTE: The dinary data of the tree is organized in the following way:
+    //!          1      The \a theTree contains Depth first search lay out of the tree,
+    //!         / \     where 1 stands for the non-leaf node and 0 for a leaf node, we
+    //!        /   \    always visit the left su-node first, e.g. the tree on the left
+    //!       2     5   is encodes the Array:     [1, 1, 0, 0, 0]
+    //!      / \        where the corresponding    ^  ^  ^  ^  ^
+    //!     /   \       tree nodes are:            1  2  3  4  5
+    //!    3     4      \a theEnabledCells contains true/false values for the leaf nodes
+    //! of the tree. Their order is the same as in \a theTree, e.g. here it is: 3,4,5
+    explicit BinaryTreeNode( const BooleanArray& theTree, const BooleanArray& theEnabledCells );
+
+    //!@}
+
+    ~BinaryTreeNode();
+
+    //!@{
+    //! \name Properties
+
+    //! \brief Returns true if the node is marked as enabled, otherwise false
+    Bool is_enabled() const;
+
+    //! \brief Returns true if some of the leaf nodes in the tree rooted to this node are enabled, otherwise false
+    Bool has_enabled() const;
+
+    //! \brief Returns true if all leaf nodes in the tree rooted to this node are enabled, otherwise false
+    Bool all_enabled() const;
+
+    //! \brief This method returns true if the given path defines a node in the tree that is either enabled
+    //! or is in a "virtual" subtree of some enabled node (note that enabled nodes can only be leafs).
+    //! Note that: \a path is treated as if it is rooted to this node, we assume that the path starts
+    //! from position \a position of \a path. The parameter \a position is used for recursive calls only.
+    Bool is_enabled( const BinaryWord & path, const Nat position = 0) const;
+
+    //! \brief Returns true if the node is marked as disabled, otherwise false
+    Bool is_disabled() const;
+
+    //! \brief Returns true if the node is a leaf (pLeftNode == nullptr && pRightNode == nullptr) otherwise false
+    Bool is_leaf() const;
+
+    //! \brief Return the left or right sub-node
+    BinaryTreeNode * child_node(Bool left_or_right) const;
+
+    //! \brief Return the left sub-node
+    BinaryTreeNode * left_node() const;
+
+    //! \brief Return the right sub-node
+    BinaryTreeNode * right_node() const;
+
+    //! \brief Returns the depth of the sub-tree rooted to the given node, i.e. the depth of it's deepest node
+    Nat depth() const;
+
+    //! \brief Allows to compare to binaty tree nodes
+    Bool operator==(const BinaryTreeNode & otherNode ) const;
+
+    //! \brief Marks the node as enabled or disabled.
+    Void set(Bool all_enabled_or_all_disabled);
+
+    static Bool is_equal_nodes( const BinaryTreeNode * pFirstNode, const BinaryTreeNode * pSecondNode );
+
+    //!@}
+
+    //!@{
+    //! \name Leaf Operations
+
+    //! \brief This method makes the node to become a leaf node with the enabled value : \a is_enabled
+    //! NOTE: the leat and the right sub-trees (are deallocated.
+    //! WARNING: this method MUST NOT be called on a non-leaf node!!!
+    Void make_leaf( ValidatedKleenean is_enabled );
+
+    //! \brief Marks the leaf node as enabled, otherwise they through \a NotALeafNodeEsception
+    Void set_enabled();
+
+    //! \brief Marks the leaf node as disabled, otherwise they through \a NotALeafNodeEsception
+    Void set_disabled();
+
+    //! \brief Marks the node as neither enabled nor disabled, is only applicable to non-leaf nodes.
+    //! When applied to a leaf node, throws IsALeafNodeException.
+    Void set_unknown();
+
+    //! \brief Splits the leaf node, i.e. adds two subnodes with the _isEnabled field value inherited from the parent node.
+    //! The parent's _isEnabled is set to intermediate, because the subsequent operation on the subtree might enable/disable
+    //! subnodes and we do not want to keep track of these changes. If the node is not a leaf then nothing is done.
+    Void split();
+
+    //! \brief This method splits the enabled subtrees of the tree rooted to
+    //! this node in such a way that the tree depth becomes \a depth.
+    //! If the initial tree depth is greater than \a depth then nothing is done.
+    Void mince(const Nat depth);
+
+    //!@}
+
+    //!@{
+    //! \name
+
+    //! \brief Allows to assign one binary tree node to the other, this is done by copying
+    //! the nodes value and the sub-trees. The sub-trees of this node are deallocated.
+    BinaryTreeNode& operator=(const BinaryTreeNode & otherNode );
+
+    //! \brief Copy all the data (including the sub-nodes) from the node pointed by \a pOtherNode into the given node.
+    //! Note that here we will create copies of the sub nodes, and NOT just copy pointers to them!
+    Void copy_from( const BinaryTreeNode * pOtherNode );
+
+    //! \brief This method recombined the sub tree nodes. Note that, the two leaf nodes with
+    //! the same parent are removed if they have the same value of isEnabled fields.
+    Void recombine();
+
+    //! \brief Stores the binary tree in a form of two arrays, their structure is the same as needed for
+    //! the BinaryTreeNode( const BooleanArray& , const BooleanArray&  ) constructor
+    Void tree_to_binary_words( BinaryWord & tree, BinaryWord & leaves ) const;
+
+    //! \brief Stores the binary tree node as a string*/
+    String node_to_string() const;
+
+    //! \brief Finds(creates) the leaf node defined by the \a path and marks it as enabled.
+    //! If some prefix of the \a path references an enabled node then nothing is done.
+    Void add_enabled( const BinaryWord & path );
+
+    //! \brief This method adjoins the enabled nodes of \a subTree to this tree.
+    //! Note that, the position of the root node of \a subTree within this
+    //! tree is defined by path.
+    Void add_enabled( const BinaryTreeNode * pOtherSubTree, const BinaryWord & path );
+
+    //! \brief This method merges \a pFromTreeRoot into \a pToTreeRoot.
+    //! The enabled nodes of the former tree are added to the latter tree.
+    //! If in the latter tree there is an enabled leaf node and in the former
+    //! tree the corresponding node is not a leaf, then this node of the latter
+    //! tree stays intact. If on the other hand we have a non-leaf node in
+    //! \a pToTreeRoot and we are adding to it an enabled node of \a pFromTreeRoot
+    //! then we just "substitute" the former one with the latter.
+    //! NOTE: 1. This function is recursive. 2. No pointers are copied between
+    //! \a pToTreeRoot and \a pFromTreeRoot.
+    Void add_enabled( BinaryTreeNode* pToTreeRoot, const BinaryTreeNode* pFromTreeRoot );
+
+    //! \brief Starting in the \a pNode node as at the root, this method counts
+    //! the number of enabled leaf nodes in the subtree
+    //! rooted at pNode.
+    static SizeType count_enabled_leaf_nodes( const BinaryTreeNode* pNode );
+
+    //! \brief Starting in the \a pRootTreeNode node as at the root, this method finds(creates)
+    //! the leaf node defined by the \a path and marks it as enabled. If some prefix of the \a path
+    //! references an enabled node then nothing is done.
+    //! NOTE: This is a recursive method on the position (\a position) in the binary path (\a path).
+    //! Therefore, the initial evaluate of this method should be done with \a position == 0;
+    static Void add_enabled( BinaryTreeNode* pRootTreeNode, const BinaryWord& path, const Nat position = 0 );
+
+    //! \brief Creates a binary tree of the height rootNodePath.size(), puts the subtree oldRootNode
+    //! into the node defined by the path \a rootNodePath, returns the root node of the extended tree.
+    static BinaryTreeNode * prepend_tree( const BinaryWord & rootNodePath, BinaryTreeNode * oldRootNode);
+
+    //! \brief This method restricts \a pThisNode to \a pOtherNode.
+    //! In essance we do the inplace AND on the tree node pThisNode.
+    //! Note that, this method is recursive.
+    static Void restrict( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode );
+
+    //! \brief This method removed enabled nodes of \a pOtherNode from \a pThisNode.
+    //! Note that, this method is recursive.
+    static Void remove( BinaryTreeNode * pThisNode, const BinaryTreeNode * pOtherNode );
+
+    //! \brief checks if two trees intersect in a set-theory sence.
+    //! I.e. we assume that pRootNodeOne and pRootNodeTwo correspond to the same (virtual) root
+    //! and then we see if the enabled leaf node of one tree contain enabled leaf nodes of
+    //! another tree as their (virtual) children.
+    static Bool intersect( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo );
+
+    //! \brief checks if the tree pRootNodeOne is a subset of the tree pRootNodeTwo, in a set-theory sence.
+    //! I.e. we assume that pRootNodeOne and pRootNodeTwo correspond to the same (virtual) root
+    //! and then we see if every enabled leaf node of pRootNodeOne is contained in the enabled leaf nodes of
+    //! pRootNodeTwo, or it is covered by the enabled leaf nodes of pRootNodeTwo. When we _write, contained and
+    //! covered then we mean: is a subnode in the (virtual) tree and all it's subnodes in the (virtual) tree.
+    static Bool subset( const BinaryTreeNode * pRootNodeOne, const BinaryTreeNode * pRootNodeTwo );
+
+    //!@}
+};
+
+//***************************************BinaryTreeNode**********************************************/
+
+inline Void BinaryTreeNode::init( ValidatedKleenean isEnabled, BinaryTreeNode* pLeftNode, BinaryTreeNode* pRightNode ) {
+    _isEnabled = isEnabled;
+    _pLeftNode = pLeftNode;
+    _pRightNode = pRightNode;
+}
+
+inline BinaryTreeNode::BinaryTreeNode(const ValidatedKleenean isEnabled) {
+    init( isEnabled, nullptr, nullptr );
+}
+
+inline BinaryTreeNode::BinaryTreeNode(const BinaryTreeNode& theTreeNode) {
+    if( (theTreeNode._pLeftNode) != nullptr && ( theTreeNode._pRightNode != nullptr ) ) {
+        init( theTreeNode._isEnabled, new BinaryTreeNode( *theTreeNode._pLeftNode ), new BinaryTreeNode( *theTreeNode._pRightNode ) );
+    } else {
+        //NOTE: We do not allow for nodes where one leaf is nullptr and another is not
+        init( theTreeNode._isEnabled, nullptr, nullptr );
+    }
+}
+
+inline BinaryTreeNode::BinaryTreeNode( const BooleanArray& theTree, const BooleanArray& theEnabledCells ) {
+    //Make default initialization
+    init( false, nullptr, nullptr ) ;
+
+    //If the tree is not empry and there are enabled leafs then do the thing
+    if( ( theTree.size() ) > 0 && ( theEnabledCells.size() > 0 ) ) {
+        Nat arr_index = 0, leaf_counter = 0;
+        restore_node( this, arr_index, leaf_counter, theTree, theEnabledCells );
+    } else {
+        //Otherwise settle with one disabled node
+        this->set_disabled();
+    }
+}
+
+inline BinaryTreeNode::~BinaryTreeNode() {
+    if( _pLeftNode != nullptr ) {
+        delete _pLeftNode;
+    }
+    if( _pRightNode != nullptr ) {
+        delete _pRightNode;
+    }
+}
+
+inline Bool BinaryTreeNode::is_enabled() const {
+    return definitely(_isEnabled);
+}
+
+inline Bool BinaryTreeNode::is_disabled() const{
+    return ! possibly(_isEnabled) ;
+}
+
+inline Bool BinaryTreeNode::is_leaf() const{
+    return (_pLeftNode == nullptr) && (_pRightNode == nullptr);
+}
+
+inline BinaryTreeNode * BinaryTreeNode::child_node(Bool left_or_right) const {
+    return left_or_right ? _pRightNode : _pLeftNode;
+}
+
+inline BinaryTreeNode * BinaryTreeNode::left_node() const {
+    return _pLeftNode;
+}
+
+inline BinaryTreeNode * BinaryTreeNode::right_node() const {
+    return _pRightNode;
+}
+
+inline Void BinaryTreeNode::set(Bool enabled_or_disabled) {
+    _isEnabled = enabled_or_disabled;
+    if( _pLeftNode != nullptr ) {
+        delete _pLeftNode; _pLeftNode = nullptr;
+    }
+    if( _pRightNode != nullptr ) {
+        delete _pRightNode; _pRightNode = nullptr;
+    }
+}
+
+inline Void BinaryTreeNode::set_enabled() {
+    if ( is_leaf() ) {
+        _isEnabled = true;
+    } else {
+        throw NotALeafNodeException(ARIADNE_PRETTY_FUNCTION);
+    }
+}
+
+inline Void BinaryTreeNode::copy_from( const BinaryTreeNode * pOtherNode ) {
+    if( pOtherNode != nullptr ) {
+        //Copy the children before deleting our own, since the other node may be one of them (or this node itself)
+        BinaryTreeNode * pNewLeftNode = ( pOtherNode->_pLeftNode != nullptr ) ? new BinaryTreeNode( * (pOtherNode->_pLeftNode) ) : nullptr;
+        BinaryTreeNode * pNewRightNode = ( pOtherNode->_pRightNode != nullptr ) ? new BinaryTreeNode( * (pOtherNode->_pRightNode) ) : nullptr;
+        _isEnabled = pOtherNode->_isEnabled;
+        if( _pLeftNode != nullptr) { delete _pLeftNode; }
+        if( _pRightNode != nullptr) { delete _pRightNode; }
+        _pLeftNode = pNewLeftNode;
+        _pRightNode = pNewRightNode;
+    }
+}
+
+inline Void BinaryTreeNode::set_disabled() {
+    if ( is_leaf() ) {
+        _isEnabled = false;
+    } else {
+        throw NotALeafNodeException(ARIADNE_PRETTY_FUNCTION);
+    }
+}
+
+inline Void BinaryTreeNode::set_unknown() {
+    if ( ! is_leaf() ) {
+        _isEnabled = indeterminate;
+    } else {
+        throw IsALeafNodeException(ARIADNE_PRETTY_FUNCTION);
+    }
+}
+
+inline Void BinaryTreeNode::make_leaf(ValidatedKleenean is_enabled ) {
+    _isEnabled = is_enabled;
+    if( _pLeftNode != nullptr ) { delete _pLeftNode; _pLeftNode= nullptr; }
+    if( _pRightNode != nullptr ) { delete _pRightNode; _pRightNode= nullptr; }
+}
+
+inline Void BinaryTreeNode::split() {
+    if ( is_leaf() ) {
+        _pLeftNode  = new BinaryTreeNode(_isEnabled);
+        _pRightNode = new BinaryTreeNode(_isEnabled);
+        set_unknown();
+    }
+}
+
+inline Void BinaryTreeNode::add_enabled( const BinaryWord& path ) {
+    add_enabled( this, path, 0 );
+}
+
+inline Void BinaryTreeNode::mince(const Nat depth) {
+    mince_node(this, depth);
+}
+
+inline Void BinaryTreeNode::recombine() {
+    recombine_node(this);
+}
+
+inline String BinaryTreeNode::node_to_string() const {
+    std::stringstream tmp_stream;
+    tmp_stream << "BinaryTreeNode( isLeaf = " << is_leaf() << ", isEnabled = " << is_enabled() << ", isDisabled = " << is_disabled() << " )";
+    return tmp_stream.str();
+}
+
+inline BinaryTreeNode& BinaryTreeNode::operator=( const BinaryTreeNode & otherNode ) {
+    this->copy_from( &otherNode );
+    return *this;
+}
+
+//*************************************FRIENDS OF BinaryTreeNode***************************************/
+
+//! \brief Stream insertion operator, prints out two binary arrays, one is the tree structure
+//! and the other is the true/false (enabled/disabled) values for the leaf nodes
+inline OutputStream& operator<<(OutputStream& output_stream, const BinaryTreeNode & binary_tree ) {
+    BinaryWord tree, leaves;
+    binary_tree.tree_to_binary_words( tree, leaves );
+    return output_stream << "BinaryTreeNode( Tree: " << tree << ", Leaves: " << leaves << ")";
+}
+
+
+} // namespace Ariadne
+
+
+#endif /* ARIADNE_BINARY_TREE_HPP */
diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index 3ec86ba..de5ac38 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -1,3124 +1,3124 @@
-/***************************************************************************
- *            geometry/grid_paving.cpp
- *
- *  Copyright  2008-20  Ivan S. Zapreev, Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-#include "function/functional.hpp"
-#include "config.hpp"
-
-#include <iostream>
-#include <iomanip>
-
-#include "utility/macros.hpp"
-#include "utility/exceptions.hpp"
-#include "utility/stlio.hpp"
-#include "function/projection.hpp"
-#include "geometry/function_set.hpp"
-#include "geometry/list_set.hpp"
-#include "geometry/grid_paving.hpp"
-#include "geometry/binary_tree.hpp"
-
-#include "geometry/set_interface.hpp"
-
-
-namespace Ariadne {
-
-Bool subset( const GridCell& theCellOne, const GridCell& theCellTwo,
-             BinaryWord * pPathPrefixOne, BinaryWord * pPathPrefixTwo, Nat * pPrimaryCellExtent);
-
-
-//****************************************GridAbstractCell*******************************************/
-
-LatticeBoxType GridAbstractCell::primary_cell_lattice_box( const Nat theExtent, const dimension_type dimensions ) {
-    Int leftBottomCorner = 0, rightTopCorner = 1;
-    //The zero level coordinates are known, so we need to iterate only for higher level primary cells
-    for(Nat i = 1; i <= theExtent; i++){
-        primary_cell_at_extent(i, leftBottomCorner, rightTopCorner);
-    }
-    // 1.2 Constructing and return the box defining the primary cell (relative to the grid).
-
-    return Vector< ExactIntervalType >( dimensions, ExactIntervalType( leftBottomCorner, rightTopCorner ) );
-}
-
-Nat GridAbstractCell::smallest_enclosing_primary_cell_extent( const LatticeBoxType& theLatticeBoxType ) {
-    const dimension_type dimensions = theLatticeBoxType.size();
-    Int leftBottomCorner = 0, rightTopCorner = 1;
-    Nat extent = 0;
-    //The zero level coordinates are known, so we need to iterate only for higher level primary cells
-    do{
-        //Check if the given box is a subset of a primary cell
-        Box< ExactIntervalType > primaryCellBoxType( dimensions, ExactIntervalType( leftBottomCorner, rightTopCorner ) );
-        if(  inside(theLatticeBoxType, primaryCellBoxType ) ) {
-            //If yes then we are done
-            break;
-        }
-        //Otherwise increase the extent and recompute the new borders
-        primary_cell_at_extent( ++extent, leftBottomCorner, rightTopCorner);
-    }while( true );
-
-    return extent;
-}
-
-Nat GridAbstractCell::smallest_enclosing_primary_cell_extent( const UpperBoxType& theBoxType, const Grid& theGrid) {
-    Vector<ExactIntervalType> theLatticeBoxType( theBoxType.size() );
-    //Convert the box to theGrid coordinates
-    for( SizeType i = 0; i != theBoxType.size(); ++i ) {
-        theLatticeBoxType[i] = cast_exact_interval( ( theBoxType[i] - cast_exact(theGrid.origin()[i])) / cast_exact(theGrid.lengths()[i]) );
-    }
-    //Compute and return the smallest primary cell, enclosing this box on the grid
-    return smallest_enclosing_primary_cell_extent( theLatticeBoxType );
-}
-
-ExactBoxType GridAbstractCell::lattice_box_to_space(const LatticeBoxType & theLatticeBoxType, const Grid& theGrid ){
-    const DimensionType dimensions = theGrid.dimension();
-    ExactBoxType theTmpBoxType( dimensions );
-
-    Vector<FloatDP> theGridOrigin( theGrid.origin() );
-    Vector<FloatDP> theGridLengths( theGrid.lengths() );
-
-    for(DimensionType current_dimension = 0; current_dimension < dimensions; current_dimension ++){
-        const FloatDP theDimLength = theGridLengths[current_dimension];
-        const FloatDP theDimOrigin = theGridOrigin[current_dimension];
-        //Recompute the new dimension coordinates, detaching them from the grid
-        //Compute lower and upper bounds separately, and then set the box lower
-        //and upper values simultaneously to prevent lower temporarily higher than upper.
-        FloatDP lower = add(approx, theDimOrigin, mul(approx, theDimLength, theLatticeBoxType[current_dimension].lower_bound() ) );
-        FloatDP upper = add(approx, theDimOrigin, mul(approx, theDimLength, theLatticeBoxType[current_dimension].upper_bound() ) );
-        theTmpBoxType[current_dimension].set_bounds(cast_exact(lower),cast_exact(upper));
-    }
-
-    return theTmpBoxType;
-}
-
-BinaryWord GridAbstractCell::primary_cell_path( const DimensionType dimensions, const Nat topPCellExtent, const Nat bottomPCellExtent) {
-    BinaryWord theBinaryPath;
-
-    //The path from one primary cell to another consists of alternating subsequences
-    //of length \a dimensions. These subsequences consist either of ones or zeroes.
-    //Odd primary cell extent means that the first subsequence will consist of all
-    //ones. Even primary cell extent indicates the the first subsequence will consis
-    //of all zeroes. This is due to the way we do the space subdivisions.
-    if( topPCellExtent > bottomPCellExtent ){
-
-        for( Nat i = topPCellExtent; i > bottomPCellExtent; i-- ){
-            Bool odd_extent = (i % 2) != 0;
-            for( Nat j = 0; j < dimensions; j++ ){
-                theBinaryPath.push_back( odd_extent );
-            }
-        }
-    }
-
-    return theBinaryPath;
-}
-
-//TODO: Perhaps we can make it more efficient by reducing the extent of the words till
-//the minimal primary cell extent and then comparing them by extent and binary words
-Bool GridAbstractCell::compare_abstract_grid_cells(const GridAbstractCell * pCellLeft, const GridAbstractCell &cellRight, const Nat comparator ) {
-    ARIADNE_ASSERT( pCellLeft->_theGrid == cellRight._theGrid );
-    const BinaryWord * pThisWord, * pOtherWord;
-    //This is the temporary word to be used if extents are not equal
-    BinaryWord rootNodePath;
-
-    if( pCellLeft->_theExtent == cellRight._theExtent ) {
-        //if the primary cells are of the same extent, then we just compare the original binary words.
-        pThisWord = & (pCellLeft->_theWord);
-        pOtherWord = & (cellRight._theWord);
-    } else {
-        //Otherwise we have to re-root the cell with the lowest primary cell
-        //to the highest primary cell and then compare the words again,
-        if( pCellLeft->_theExtent > cellRight._theExtent ){
-            rootNodePath = primary_cell_path( pCellLeft->_theGrid.dimension() , pCellLeft->_theExtent, cellRight._theExtent );
-            rootNodePath.append( cellRight._theWord );
-            pThisWord = & (pCellLeft->_theWord);
-            pOtherWord = & (rootNodePath);
-        } else {
-            rootNodePath = primary_cell_path( pCellLeft->_theGrid.dimension() , cellRight._theExtent, pCellLeft->_theExtent );
-            rootNodePath.append( pCellLeft->_theWord );
-            pThisWord = & (rootNodePath);
-            pOtherWord = & (cellRight._theWord);
-        }
-    }
-    switch( comparator ){
-        case COMPARE_EQUAL : return (*pThisWord) == (*pOtherWord);
-        case COMPARE_LESS : return (*pThisWord) < (*pOtherWord);
-        default:
-            throw InvalidInput("The method's comparator argument should be either GridAbstractCell::COMPARE_EQUAL or GridAbstractCell::COMPARE_LESS.");
-    }
-}
-
-//********************************************GridCell***********************************************/
-
-GridCell GridCell::split(Bool isRight) const {
-    BinaryWord theWord = _theWord;
-    theWord.push_back( isRight );
-    return GridCell( _theGrid, _theExtent, theWord);
-}
-
-Pair<GridCell,GridCell> GridCell::split() const {
-    BinaryWord theLeftWord = _theWord;
-    theLeftWord.push_back( false );
-    BinaryWord theRightWord = _theWord;
-    theRightWord.push_back( true );
-    return std::make_pair(GridCell( _theGrid, _theExtent, theLeftWord),GridCell( _theGrid, _theExtent, theRightWord));
-}
-
-GridCell GridCell::smallest_enclosing_primary_cell( const UpperBoxType& theBoxType, const Grid& theGrid) {
-    //Create the GridCell, corresponding to the smallest primary cell, enclosing this box
-    return GridCell( theGrid, smallest_enclosing_primary_cell_extent(theBoxType, theGrid), BinaryWord() );
-}
-
-class BinaryCode {
-    Nat _height;
-    BinaryWord _word;
-  public:
-    BinaryCode(Nat tree_height, BinaryWord word) : _height(tree_height), _word(word) { } //assert(word.size()>=height); }
-    bool operator[](Int i) { return _word[static_cast<Nat>(i+static_cast<Int>(_height))]; }
-    friend OutputStream& operator<<(OutputStream& os, BinaryCode const& bc) {
-        for (SizeType i=0; i!=bc._word.size(); ++i) {
-            if (i==bc._height) { os << '.'; } os << (short)bc._word[i];
-        }
-        return os;
-    }
-    Array<BinaryCode> split(DimensionType dim) {
-        assert(_height % dim==0);
-        Array<BinaryCode> codes(dim, BinaryCode(_height/dim,BinaryWord()));
-        DimensionType k=0;
-        for (SizeType i=0; i!=_word.size(); ++i) {
-            codes[k]._word.append(this->_word[i]);
-            k=(k+1) % dim;
-        }
-        return codes;
-    }
-};
-
-//Computes the box corresponding the the cell defined by the primary cell and the binary word.
-//The resulting box is not relaterd to the original space, but is a lattice box.
-// 1. Compute the primary cell located the the extent \a theExtent above the zero level,
-// 2. Compute the cell defined by the path \a theWord (from the primary cell).
-LatticeBoxType GridCell::compute_lattice_box( const DimensionType dimensions, const Nat theExtent, const BinaryWord& theWord ) {
-    LatticeBoxType theResultLatticeBoxType( primary_cell_lattice_box( theExtent , dimensions ) );
-
-    //2. Compute the cell on some grid, corresponding to the binary path from the primary cell.
-    SizeType current_dimension = 0;
-    for(SizeType i = 0; i < theWord.size(); i++){
-        //We move through the dimensions in a linear fasshion
-        current_dimension = i % dimensions;
-        //Compute the middle point of the box's projection onto
-        //the dimension \a current_dimension (relative to the grid)
-        FloatDP middlePointInCurrDim = theResultLatticeBoxType[current_dimension].midpoint();
-        if( theWord[i] ){
-            //Choose the right half
-            theResultLatticeBoxType[current_dimension].set_lower_bound( cast_exact(middlePointInCurrDim) );
-        } else {
-            //Choose the left half
-            theResultLatticeBoxType[current_dimension].set_upper_bound( cast_exact(middlePointInCurrDim) );
-        }
-    }
-    return theResultLatticeBoxType;
-}
-
-GridCell raise_to_level(GridCell gc, Nat level) {
-    assert(gc.root_extent()<=level);
-    DimensionType n=gc.dimension();
-    BinaryWord w;
-    for (SizeType l=level; l!=gc.root_extent(); --l) {
-        for (DimensionType j=0; j!=n; ++j) {
-            w.append(l%2);
-        }
-    }
-    w.append(gc.word());
-    return GridCell(gc.grid(),level,w);
-}
-
-
-
-//This method appends \a dimension() zeroes to the binary word defining this cell
-//and return a GridOpenCell created with the given grid, primany cell extent and
-//the newly created word for the low-left cell of the open cell
-GridOpenCell GridCell::interior() const {
-    BinaryWord theOpenCellWord = _theWord;
-    for( SizeType i = 0; i < _theGrid.dimension(); i++) {
-        theOpenCellWord.push_back(false);
-    }
-    //The open cell will be defined by the given new word, i.e. the path to the
-    //left-bottom sub-quadrant cell but the box and the rest will be the same
-    return GridOpenCell( _theGrid, _theExtent, theOpenCellWord, _theBoxType );
-}
-
-//NOTE: The cell defined byt the method's arguments is called the base cell.
-//NOTE: Here we work with the lattice boxes that are in the grid
-GridCell GridCell::neighboringCell( const Grid& theGrid, const Nat theExtent, const BinaryWord& theWord, const DimensionType dim ) {
-    const DimensionType dimensions = theGrid.dimension();
-    //1. Extend the base cell in the given dimension (dim) by it's half width. This way
-    //   we are sure that we get a box that overlaps with the required neighboring cell.
-    //NOTE: This box is in the original space, but not on the lattice
-    Box<ExactIntervalType> baseCellBoxInLattice =  GridCell::compute_lattice_box( dimensions, theExtent, theWord );
-    const FloatDP upperBorderOverlapping = add(approx, baseCellBoxInLattice[dim].upper_bound(), hlf( baseCellBoxInLattice[dim].width().value_raw() ) );
-
-    //2. Now check if the neighboring cell can be rooted to the given primary cell. For that
-    //   we simply use the box computed in 1. and get the primary cell that encloses it.
-    //NOTE: In fact, we only need to take about the upper border, because the lower border does not change.
-    Int leftBottomCorner = 0, rightTopCorner = 1; Nat extent = 0;
-    do{
-        if( upperBorderOverlapping <= rightTopCorner ) {
-            //As soon as we fall into the primary cell we are done
-            break;
-        }
-        //Otherwise increase the extent and recompute the new borders
-        primary_cell_at_extent( ++extent, leftBottomCorner, rightTopCorner);
-    } while(true);
-
-    //3. If it can not then we take the lowest required primary cell to root this cell to and
-    //   to re-route the given base cell of GridOpenCell to that one.
-    Nat theBaseCellExtent = theExtent;
-    BinaryWord theBaseCellWord = theWord;
-    if( extent > theBaseCellExtent ) {
-        //If we need a higher primary cell then extend the extent and the word for the case cell
-        theBaseCellWord = primary_cell_path( dimensions, extent, theBaseCellExtent );
-        theBaseCellWord.append( theWord );
-        theBaseCellExtent = extent;
-    }
-
-    //4. We need to start from the end of the new (extended) word representing the base cell. Then
-    //   we go backwards and look for the smallest cell such that the upper border computed in 1.
-    //   is less than the cell's box upper border (in the given dimension). This is indicated by incountering
-    //   the first zero in the path to the base cell in dimension dim from the end of the path
-    SizeType position = theBaseCellWord.size() - 1;
-    while(true) {
-        //Only consider the dimension that we need and look for the first opotrunity to invert the path suffix.
-        if( ( position % dimensions == dim ) && !theBaseCellWord[position] ) {
-            break;
-        }
-        if (position == 0)
-            break;
-        position--;
-    }
-
-    //5. When this entry in the word is found from that point on we have to inverse the path in such
-    //   a way that every component in the dimension from this point till the end of the word is
-    //   inverted. This will provide us with the path to the neighborind cell in the given dimension
-    for(SizeType index = position; index < theBaseCellWord.size(); index++){
-        if( index % dimensions == dim ) {
-            //If this element of the path corresponds to the needed dimension then we need to invert it
-            theBaseCellWord[index] = !theBaseCellWord[index];
-        }
-    }
-
-    return GridCell( theGrid, theBaseCellExtent, theBaseCellWord );
-}
-
-DimensionType GridCell::dimension() const {
-    return this->grid().dimension();
-}
-
-//************************************FRIENDS OF GridCell*****************************************/
-
-Bool subset(const GridCell& theCellOne, const GridCell& theCellTwo, BinaryWord * pPathPrefixOne, BinaryWord * pPathPrefixTwo, Nat *pPrimaryCellExtent ) {
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theCellOne.grid() == theCellTwo.grid() );
-
-    //Test that the binary words are empty, otherwise the results of computations are undefined
-    Bool isDefault = false;
-    if( ( pPathPrefixOne == nullptr ) && ( pPathPrefixTwo == nullptr ) ) {
-        //If both parameters are null, then the user does not
-        //need this data, so we allocate tepmorary objects
-        pPathPrefixOne = new BinaryWord();
-        pPathPrefixTwo = new BinaryWord();
-        isDefault = true;
-    } else {
-        if( ( pPathPrefixOne == nullptr ) || ( pPathPrefixTwo == nullptr ) ) {
-            //TODO: Find some better way to notify the user that
-            //only one of the required pointers is not nullptr.
-            ARIADNE_ASSERT( false );
-        } else {
-            //DO NOTHING: Both parameters are not nullptr, so it
-            //is user data and isDefault should stay false.
-        }
-    }
-
-    //Check if theCellOne is a subset of theCellTwo:
-
-    //01 Align the cell's primary cells by finding path prefixes
-    Nat primary_cell_extent;
-    if( theCellOne.root_extent() < theCellTwo.root_extent() ) {
-        primary_cell_extent = theCellTwo.root_extent();
-        pPathPrefixOne->append( GridCell::primary_cell_path( theCellOne.grid().dimension(), theCellTwo.root_extent(), theCellOne.root_extent() ) );
-    } else {
-        primary_cell_extent = theCellOne.root_extent();
-        if( theCellOne.root_extent() > theCellTwo.root_extent() ){
-            pPathPrefixTwo->append( GridCell::primary_cell_path( theCellOne.grid().dimension(), theCellOne.root_extent(), theCellTwo.root_extent() ) );
-        } else {
-            //DO NOTHING: The cells are rooted to the same primary cell
-        }
-    }
-    if( pPrimaryCellExtent != nullptr ){
-        *pPrimaryCellExtent = primary_cell_extent;
-    }
-
-    //02 Add the rest of the paths to the path prefixes to get the complete paths
-    pPathPrefixOne->append( theCellOne.word() );
-    pPathPrefixTwo->append( theCellTwo.word() );
-
-    //03 theCellOne is a subset of theCellTwo if pathPrefixTwo is a prefix of pathPrefixOne
-    Bool result = pPathPrefixTwo->is_prefix( *pPathPrefixOne );
-
-    //04 If working with default parameters, then release memory
-    if( isDefault ) {
-        delete pPathPrefixOne;
-        delete pPathPrefixTwo;
-    }
-
-    return result;
-}
-
-OutputStream& operator<<(OutputStream& os, const GridCell& gridPavingCell){
-    //Write the grid data to the string stream
-    return os << "GridCell( " << gridPavingCell.grid() <<
-        ", Primary cell extent: " << gridPavingCell.root_extent() <<
-        ", Path from the root: " << gridPavingCell.word() <<
-        ", ExactBoxType: " << gridPavingCell.box() << " )";
-}
-
-
-//********************************************GridOpenCell******************************************/
-
-//NOTE: In this method first works with the boxes on the lattice, to make
-//      computation exact, and then maps them to the original space.
-ExactBoxType GridOpenCell::compute_box(const Grid& theGrid, const Nat theExtent, const BinaryWord& theWord) {
-    Box<ExactIntervalType> baseCellBoxInLattice =  GridCell::compute_lattice_box( theGrid.dimension(), theExtent, theWord );
-    ExactBoxType openCellBoxInLattice( theGrid.dimension() );
-
-    //Go through all the dimensions, and double the box size in the positive axis direction.
-    for( DimensionType dim = 0; dim < theGrid.dimension(); dim++){
-        ExactIntervalType openCellBoxInLatticeDimIntervalType;
-        ExactIntervalType baseCellBoxInLatticeDimIntervalType = baseCellBoxInLattice[dim];
-        FloatDP lower = baseCellBoxInLatticeDimIntervalType.lower_bound();
-        FloatDP upper = add( near, baseCellBoxInLatticeDimIntervalType.upper_bound(),
-                             sub( near, baseCellBoxInLatticeDimIntervalType.upper_bound(),
-                                        baseCellBoxInLatticeDimIntervalType.lower_bound() ) );
-        openCellBoxInLatticeDimIntervalType.set_bounds(cast_exact(lower),cast_exact(upper));
-
-        openCellBoxInLattice[dim] = openCellBoxInLatticeDimIntervalType;
-    }
-
-    return lattice_box_to_space( openCellBoxInLattice, theGrid );
-}
-
-GridOpenCell GridOpenCell::split(TernaryChild child) const {
-    BinaryWord theNewBaseCellPath = _theWord;
-    Nat theNewPrimaryCellExtent;
-    if( child == TernaryChild::MIDDLE ) {
-        //Return the middle open cell (child == TernaryChild::MIDDLE)
-        theNewBaseCellPath.push_back( true );
-        theNewPrimaryCellExtent = _theExtent;
-    } else {
-        if( child == TernaryChild::RIGHT ) {
-            //Return the right-most open cell (child == TernaryChild::RIGHT)
-            //1. First determine in which dimention we are going to split
-            //NOTE: We use theNewBaseCellPath.size() but not theNewBaseCellPath.size()-1 because
-            //we want to determine the dimension in which will be the next split, but not the
-            //dimension in which we had the last split.
-            const DimensionType dim = theNewBaseCellPath.size() % _theGrid.dimension();
-            //2. Then get the neighboring cell in this dimension
-            GridCell neighboringCell = GridCell::neighboringCell( _theGrid, _theExtent, theNewBaseCellPath, dim );
-            //3. Get the neighboring's cell extent and word, because extent might change
-            theNewBaseCellPath = neighboringCell.word();
-            theNewPrimaryCellExtent = neighboringCell.root_extent();
-            //4. Take the left half of the new base cell
-            theNewBaseCellPath.push_back( false );
-        } else {
-            //Return the left-most open cell (child == TernaryChild::LEFT)
-            theNewBaseCellPath.push_back( false );
-            theNewPrimaryCellExtent = _theExtent;
-        }
-    }
-
-    //Construct the new open cell and return it
-    return GridOpenCell( _theGrid, theNewPrimaryCellExtent, theNewBaseCellPath );
-}
-
-GridOpenCell * GridOpenCell::smallest_open_subcell( const GridOpenCell &theOpenCell, const ExactBoxType & theBoxType ) {
-    GridOpenCell * pSmallestOpenCell = nullptr;
-    //If the box of the givel open cell covers the given box
-    if( definitely( theOpenCell.box().covers( theBoxType ) ) ) {
-        //First check the left sub cell
-        pSmallestOpenCell = smallest_open_subcell( theOpenCell.split( TernaryChild::LEFT ), theBoxType );
-        if( pSmallestOpenCell == nullptr ) {
-            //If the left sub cell does not cover theBoxType then check the middle sub cell
-            pSmallestOpenCell = smallest_open_subcell( theOpenCell.split( TernaryChild::MIDDLE ), theBoxType );
-            if( pSmallestOpenCell == nullptr ) {
-                //If the middle sub cell does not cover the box then check the right subcell
-                pSmallestOpenCell = smallest_open_subcell( theOpenCell.split( TernaryChild::RIGHT ), theBoxType );
-                if( pSmallestOpenCell == nullptr ) {
-                    //If the right sub cell does not cover the box then the open cell
-                    //theOpenCell is the smallest GridOpenCell covering theBoxType.
-                    pSmallestOpenCell = new GridOpenCell( theOpenCell.grid(), theOpenCell.root_extent(),
-                                                          theOpenCell.word(), theOpenCell.box() );
-                }
-            }
-        }
-    }
-
-    //Return the result, is null If the box of theOpenCell does not cover the given box
-    return pSmallestOpenCell;
-}
-
-GridOpenCell GridOpenCell::outer_approximation( const ExactBoxType & theBoxType, const Grid& theGrid ) {
-    //01. First we find the smallest primary GridCell that contain the given ExactBoxType.
-    GridCell thePrimaryCell = GridCell::smallest_enclosing_primary_cell( theBoxType, theGrid );
-
-    //02. Second we start subdividing it to find out the root cell for the smallest open cell containing theBoxType
-    //NOTE: smallest_open_subcell returns nullptr or a pointer to new open cell, but here we are sure that
-    //we can not get nullptr because of the choice of thePrimaryCell, therefore we do the following:
-    GridOpenCell * pOpenCell = GridOpenCell::smallest_open_subcell( thePrimaryCell.interior(), theBoxType );
-    GridOpenCell theOpenCell = (* pOpenCell); delete pOpenCell; //Deallocate the memory, to avoid the memory leaks
-    return theOpenCell;
-}
-
-GridTreePaving GridOpenCell::closure() const {
-    //01. First we compute the extent of the primary cell that encloses the given open cell
-    const Nat newExtent = smallest_enclosing_primary_cell_extent( _theBoxType, _theGrid );
-
-    //02. Re-route (if needed) the base cell to the new primary cell
-    Nat theBaseCellExtent = _theExtent;
-    BinaryWord theBaseCellWord = _theWord;
-    //If we need a higher primary cell then extend the extent and the word for the base cell
-    if( newExtent > theBaseCellExtent ) {
-        theBaseCellWord = primary_cell_path( _theGrid.dimension(), newExtent, theBaseCellExtent );
-        theBaseCellWord.append( _theWord );
-        theBaseCellExtent = newExtent;
-    }
-
-    //03. Allocate the resulting GridTreeSet with the root at the needed extent
-    GridTreePaving theResultSet( _theGrid, theBaseCellExtent, new BinaryTreeNode( false ) );
-
-    //04. The preparations are done, now we need to add the base cell to the
-    //    resulting GridTreeSet and to compute and add the other neighboring cells.
-    BinaryWord tmpWord;
-    neighboring_cells( theResultSet.root_cell().root_extent(), theBaseCellWord, tmpWord, theResultSet );
-
-    return theResultSet;
-}
-
-Void GridOpenCell::neighboring_cells( const Nat theExtent, const BinaryWord& theBaseCellWord,
-                                      BinaryWord& cellPosition, GridTreePaving& theResultSet ) const {
-    if( cellPosition.size() < _theGrid.dimension() ) {
-        //Choose the left direction in the current dimension
-        cellPosition.push_back( false );
-        GridOpenCell::neighboring_cells( theExtent, theBaseCellWord, cellPosition, theResultSet );
-        cellPosition.pop_back( );
-        //Choose the right direction in the current dimension
-        cellPosition.push_back( true );
-        GridOpenCell::neighboring_cells( theExtent, theBaseCellWord, cellPosition, theResultSet );
-        cellPosition.pop_back( );
-    } else {
-        //We have constructed the cell position relative to the base cell
-        //for the case of _theGrid.dimension() dimensional space, now it
-        //is time to compute this cell and add it to theResultSet
-        theResultSet.adjoin( GridOpenCell::neighboring_cell( _theGrid, theExtent, theBaseCellWord, cellPosition ) );
-    }
-}
-
-GridCell GridOpenCell::neighboring_cell( const Grid& theGrid, const Nat theExtent,
-                                         const BinaryWord& theBaseCellWord, BinaryWord& cellPosition ) {
-    const SizeType num_dimensions = theGrid.dimension();
-    //01. Allocate the Array of size _theGrid.dimensions() in which we will store
-    //    the position in the path theBaseCellWord, for each dimension, from which on
-    //    we need to inverse the path to get the proper neighboring cell.
-    Vector<SizeType> invert_position(num_dimensions);
-    const SizeType NO_INVERSE_POSITION = static_cast<SizeType>(theBaseCellWord.size());
-    //Initialize the Array with NO_INVERSE_POSITION to make sure that the inversion positions
-    //for the dimensions that are not set to one in cellPosition will be undefined. Also,
-    //count the required number of iverse dimensions
-    SizeType inverseDimensionsNumericType = 0;
-    for( SizeType i = 0; i < num_dimensions; i++ ) {
-        invert_position[i] = NO_INVERSE_POSITION;
-        inverseDimensionsNumericType = inverseDimensionsNumericType + cellPosition[i];
-    }
-
-    //02. Create the path to the neighboring cell and initialize it with the path to the base cell
-    BinaryWord theNeighborCellWord = theBaseCellWord;
-
-    //03. We need to start from the end of the new (extended) word representing the base cell. Then
-    //    we go backwards and, for each dimension in which we need to move from the base cell, look
-    //    for the first zero in the path. This position, for each dimension, will indicate the path
-    //    suffix which has to be inverted to get the neighboring cell defined by cellPosition
-    SizeType firstInversePosition = NO_INVERSE_POSITION;
-    if( inverseDimensionsNumericType > 0 ) {
-        //If there is a need to do inverses, i.e. we are not adding the base cell itself
-        SizeType foundNumericTypeOfInverses = 0;
-        SizeType position = theNeighborCellWord.size() - 1u;
-        while(true) {
-            //Only consider the dimension that we need and look for the first opotrunity to invert the path suffix.
-            SizeType dimension = position % num_dimensions;
-            //If we need to inverse in this dimension and this is the first found position in
-            //this dimension from which on we should inverse then save the position index.
-            if( cellPosition[ dimension ] && !theNeighborCellWord[ position ] &&
-                ( invert_position[ dimension ] == NO_INVERSE_POSITION ) ) {
-                invert_position[ dimension ] = position;
-                //Since it will typically be the case the the binary word to the base cell will be
-                //longer than the number of dimensions, we also find the first inverse positions.
-                if( position < firstInversePosition ) {
-                    firstInversePosition = position;
-                }
-                //Incremenet the number of fount inverses and check if this is all we need, if yes then break
-                foundNumericTypeOfInverses++;
-                if( foundNumericTypeOfInverses == inverseDimensionsNumericType ) {
-                    break;
-                }
-            }
-            if (position == 0) break;
-            position--;
-        }
-    }
-
-    //04. Since now all the inversion positions are found, we need to go through the path again and
-    //    inverse it in the needed dimesnions starting from (corresponding) the found positions on.
-    //    This will provide us with the path to the neighborind cell in the given dimension
-    for( SizeType index = firstInversePosition; index < theNeighborCellWord.size(); index++ ) {
-        SizeType dimension = index % num_dimensions;
-        if( cellPosition[ dimension ] && ( index >= invert_position[ dimension ] ) ) {
-            theNeighborCellWord[index] = !theNeighborCellWord[index];
-        }
-    }
-
-    return GridCell( theGrid, theExtent, theNeighborCellWord );
-}
-
-Void GridOpenCell::cover_cell_and_borders( const GridCell& theCell, const GridTreePaving& theSet,
-                                  BinaryWord& cellPosition, std::vector<GridOpenCell>& result ) {
-    const SizeType num_dimensions = theCell.grid().dimension();
-    if( cellPosition.size() < num_dimensions ) {
-        //Choose the left direction in the current dimension
-        cellPosition.push_back( false );
-        cover_cell_and_borders( theCell, theSet, cellPosition, result );
-        cellPosition.pop_back( );
-        //Choose the right direction in the current dimension
-        cellPosition.push_back( true );
-        cover_cell_and_borders( theCell, theSet, cellPosition, result );
-        cellPosition.pop_back( );
-    } else {
-        //We have constructed the cell position relative to the base cell
-        //for the case of _theGrid.dimension() dimensional space, now it
-        //is time to compute this cell and add it to result
-        GridCell neighborCell = GridOpenCell::neighboring_cell( theCell.grid(), theCell.root_extent(), theCell.word(), cellPosition );
-        //Check if the found neighboring cell is in theSet
-        if( theSet.binary_tree()->is_enabled( neighborCell.word() ) ) {
-            //So this cell is the enabled neighbor of theCell therefore we need to cover the boundary
-            BinaryWord coverCellBaseWord = theCell.word();
-            //Take the given word theCell.word() and then add the directions from the cellPosition
-            //The latter start from the first axis till the last one, but the path in coverCellBaseWord
-            //currently ends at some other axis so we need to align them when appending cellPosition
-            for( SizeType i = 0; i < num_dimensions ; i++ ) {
-                coverCellBaseWord.push_back( cellPosition[ coverCellBaseWord.size() % num_dimensions ] );
-            }
-            //Add the resulting cover cell
-            result.push_back( GridOpenCell( theCell.grid(), theCell.root_extent(), coverCellBaseWord ) );
-        }
-    }
-}
-
-List<GridOpenCell> GridOpenCell::intersection( const GridOpenCell & theLeftOpenCell, const GridOpenCell & theRightOpenCell ) {
-    List<GridOpenCell> result;
-
-    //01 First check if one open cell is a subset of another open cell or if they overlap
-    if( definitely( theLeftOpenCell.box().covers( theRightOpenCell.box() ) ) ) {
-            //If theRightOpenCell is a subset of theLeftOpenCell
-        result.push_back( theRightOpenCell );
-    } else {
-        if( definitely( theRightOpenCell.box().covers( theLeftOpenCell.box() ) ) ) {
-            //If theLeftOpenCell is a subset of theRightOpenCell
-            result.push_back( theLeftOpenCell );
-        } else {
-            if( definitely( theRightOpenCell.box().overlaps( theLeftOpenCell.box() ) ) ) {
-                //02 If the open cells overlap then let us get the cells contained by the two open cells
-                GridTreePaving theLeftCellSet = theLeftOpenCell.closure();
-                GridTreePaving theRightCellSet = theRightOpenCell.closure();
-
-                //03 Then we compute their intersection
-                GridTreePaving intersectionSet = Ariadne::intersection( theLeftCellSet, theRightCellSet );
-                //NOTE: It seems to me there is no need to recombine the resulting set, it will not reduce anything
-
-                //04 Iterate through all the cells in the intersection and first add their interiors to the resulting set, second
-                //check if the two cells have common border and/or vertex and if they do then add extra open cells, lying withing
-                //the intersection and covering the common border and/or vertex.
-                for ( GridTreeSubpaving::ConstIterator it = intersectionSet.begin(), end = intersectionSet.end(); it != end; it++) {
-                    //Cover the interior of the cell and the borders with the cells bordered with
-                    //the given one in each  positive direction in each dimension. The borders
-                    //are covered only if the neighboring cell is also in the intersection set.
-                    BinaryWord tmpWord;
-                    cover_cell_and_borders( (*it), intersectionSet, tmpWord, result );
-                }
-            }
-        }
-    }
-
-    return result;
-}
-
-//***************************************FRIENDS OF GridOpenCell*******************************************/
-
-OutputStream& operator<<(OutputStream& os, const GridOpenCell& theGridOpenCell ) {
-    //Write the grid data to the string stream
-    return os << "GridOpenCell( " << theGridOpenCell.grid() <<
-        ", Primary cell extent: " << theGridOpenCell.root_extent() <<
-        ", Base cell path: " << theGridOpenCell.word() <<
-        ", ExactBoxType (closure): " << theGridOpenCell.box() << " )";
-}
-
-
-
-//*******************************************GridTreeCursor***************************************/
-
-GridTreeCursor::GridTreeCursor( ) :
-    _currentStackIndex(-1), _pSubPaving(0), _theCurrentGridCell( Grid(), 0, BinaryWord() ) {
-}
-
-GridTreeCursor::GridTreeCursor(const GridTreeCursor & otherCursor) :
-    _currentStackIndex(otherCursor._currentStackIndex), _theStack(otherCursor._theStack),
-    _pSubPaving(otherCursor._pSubPaving), _theCurrentGridCell(otherCursor._theCurrentGridCell){
-}
-
-GridTreeCursor& GridTreeCursor::operator=(const GridTreeCursor & otherCursor) {
-    _currentStackIndex = otherCursor._currentStackIndex;
-    _theStack = otherCursor._theStack;
-    _pSubPaving = otherCursor._pSubPaving;
-    _theCurrentGridCell = otherCursor._theCurrentGridCell;
-
-    return *this;
-}
-
-GridTreeCursor::GridTreeCursor(const GridTreeSubpaving * pSubPaving) :
-    _currentStackIndex(-1), _pSubPaving(pSubPaving), _theCurrentGridCell( pSubPaving->root_cell() ) {
-    //Remember that GridTreeSubset contains GridCell
-
-    //Add the current node to the stack, since we are in it
-
-    //IVAN S ZAPREEV:
-    //NOTE: There is no need in allocating _theStack elements,
-    //it is all done in the push method
-    push(pSubPaving->_pRootTreeNode);
-}
-
-GridTreeCursor::~GridTreeCursor() {
-    //IVAN S ZAPREEV:
-    //WARNING: The subpaving should not be deallocated here!
-    //There are no other data feels that we need to deallocate
-    _pSubPaving = nullptr;
-}
-
-inline Void GridTreeCursor::push( BinaryTreeNode* pLatestNode ){
-    //If we are out of free space, increase the Array's capacity
-    if( static_cast<SizeType>(_currentStackIndex +1) == ( _theStack.size()  ) ){
-        _theStack.resize( _theStack.size() + STACK_SIZE_INCREMENT );
-    }
-
-    //The index for the tree node to be added
-    _currentStackIndex += 1;
-
-    //Put the tree node pointer into the stack
-    _theStack[static_cast<SizeType>(_currentStackIndex)] = pLatestNode;
-
-}
-
-inline BinaryTreeNode* GridTreeCursor::pop( ){
-    BinaryTreeNode* pLastNode = nullptr;
-
-    //If there are non-root nodes in the stack
-    if( _currentStackIndex > 0 ){
-        //Return the stack element at _currentStackIndex,
-        //then decrement the current element's index (here inverted in order)
-        _currentStackIndex--;
-        return _theStack[ static_cast<SizeType>(_currentStackIndex+1) ];
-    }
-
-    return pLastNode;
-}
-
-Bool GridTreeCursor::is_at_the_root() const {
-    //If we are pointing at the zero cell of the Array then it
-    //means that we are in the root of the tree
-    return (_currentStackIndex == 0);
-}
-
-Bool GridTreeCursor::is_enabled() const {
-    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->is_enabled();
-}
-
-Bool GridTreeCursor::is_disabled() const {
-    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->is_disabled();
-}
-
-Bool GridTreeCursor::is_leaf() const {
-    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->is_leaf();
-}
-
-Bool GridTreeCursor::is_root() const {
-    return  is_at_the_root();
-}
-
-Void GridTreeCursor::set_enabled() const {
-    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->set_enabled();
-}
-
-Void GridTreeCursor::set_disabled() const {
-    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->set_disabled();
-}
-
-Bool GridTreeCursor::is_left_child() const{
-    //If there is a parent node and the given node is it's left child
-    return ( _currentStackIndex > 0 ) && ( _theStack[ static_cast<SizeType>(_currentStackIndex - 1) ]->left_node() == _theStack[ static_cast<SizeType>(_currentStackIndex) ] );
-}
-
-Bool GridTreeCursor::is_right_child() const{
-    //If there is a parent node and the given node is it's right child
-    return ( _currentStackIndex > 0 ) && ( _theStack[ static_cast<SizeType>(_currentStackIndex - 1) ]->right_node() == _theStack[ static_cast<SizeType>(_currentStackIndex) ] );
-}
-
-GridTreeCursor& GridTreeCursor::move_up() {
-    return move(BinaryTreeDirection::UP);
-}
-
-GridTreeCursor& GridTreeCursor::move_left() {
-    return move(BinaryTreeDirection::LEFT);
-}
-
-GridTreeCursor& GridTreeCursor::move_right() {
-    return move(BinaryTreeDirection::RIGHT);
-}
-
-inline Void GridTreeCursor::updateTheCurrentGridCell( BinaryTreeDirection up_or_left_or_right ) {
-    if( up_or_left_or_right == BinaryTreeDirection::UP ){
-        //We go "up" in the tree, so we remove the last bit of the path.
-        _theCurrentGridCell._theWord.pop_back();
-    } else {
-        //Here up_or_left_or_right is either LEFT or RIGHT, so true defines moving to the right branch
-        _theCurrentGridCell._theWord.push_back( up_or_left_or_right==BinaryTreeDirection::RIGHT );
-    }
-    _theCurrentGridCell = GridCell( _theCurrentGridCell._theGrid, _theCurrentGridCell._theExtent, _theCurrentGridCell._theWord );
-}
-
-inline GridTreeCursor& GridTreeCursor::move(BinaryTreeDirection up_or_left_or_right) {
-    if( up_or_left_or_right == BinaryTreeDirection::UP ) {
-        if( is_root() ) {
-            throw NotAllowedMoveException(ARIADNE_PRETTY_FUNCTION);
-        }
-        //Remove the current node from the stack
-        pop();
-    }
-    else {
-        if( is_leaf() ){
-            throw NotAllowedMoveException(ARIADNE_PRETTY_FUNCTION);
-        }
-        //If we are not in the leaf node then we can go down
-        BinaryTreeNode* pNextNode;
-        if( up_or_left_or_right == BinaryTreeDirection::RIGHT ) { //move to the right
-            pNextNode = _theStack[ static_cast<SizeType>(_currentStackIndex) ]->right_node();
-        } else { // move to the left
-            pNextNode = _theStack[ static_cast<SizeType>(_currentStackIndex) ]->left_node();
-        }
-        //Put the node into the stack
-        push(pNextNode);
-    }
-
-    //Recompute the PavingGridCell
-    updateTheCurrentGridCell( up_or_left_or_right );
-    //Return the object back
-    return ( * this);
-}
-
-Bool GridTreeCursor::operator==(const GridTreeCursor& anotherGridTreeCursor) const {
-    Bool areEqual = false;
-    if( (this->_currentStackIndex >=0) && (anotherGridTreeCursor._currentStackIndex >=0 ) ){
-        areEqual = (this->_theStack[static_cast<SizeType>(this->_currentStackIndex)] == anotherGridTreeCursor._theStack[static_cast<SizeType>(anotherGridTreeCursor._currentStackIndex)]);
-    }
-    return areEqual;
-}
-
-GridTreeSubpaving GridTreeCursor::operator*() {
-    //IVAN S ZAPREEV:
-    //NOTE: The first three parameters define the location of the _theStack[ _currentStackIndex ]
-    //node with respect to the primary cell of the GridTreeSet.
-    return GridTreeSubpaving( _theCurrentGridCell._theGrid,
-                           _theCurrentGridCell._theExtent,
-                           _theCurrentGridCell._theWord,
-                           _theStack[ static_cast<SizeType>(_currentStackIndex) ] );
-}
-
-const GridTreeSubpaving GridTreeCursor::operator*() const {
-    return const_cast<GridTreeCursor&>(*this).operator*();
-}
-
-//************************************FRIENDS OF GridTreeCursor*****************************************/
-
-OutputStream& operator<<(OutputStream& os, const GridTreeCursor& theGridTreeCursor) {
-    const Int curr_stack_idx = theGridTreeCursor._currentStackIndex;
-    os << "GridTreeCursor( " << theGridTreeCursor._pSubPaving <<
-        ", Curr. stack index: " << curr_stack_idx  <<
-        ", Stack data: [ ";
-    for(SizeType i = 0; i <= static_cast<SizeType>(curr_stack_idx); i++){
-        os << theGridTreeCursor._theStack[i]->node_to_string() << ( ( i < static_cast<SizeType>(curr_stack_idx) ) ? "" : ", ");
-    }
-    return os<<" ], " << theGridTreeCursor._theCurrentGridCell << " )";
-}
-
-//***************************************GridTreeConstIterator************************************/
-
-GridTreeConstIterator::GridTreeConstIterator(  ) : _pGridTreeCursor()  {
-}
-
-GridTreeConstIterator::GridTreeConstIterator( const GridTreeSubpaving * pSubPaving, const ValidatedKleenean firstLastNone )
-    :  _pGridTreeCursor(pSubPaving)
-{
-    if( is_determinate( firstLastNone ) ) {
-        //If the first/last enabled node is not found, it means that there are no elements
-        //to iterate on, then we switch to the "end Iterator" state
-        _is_in_end_state = ! navigate_to( definitely( firstLastNone ) );
-    } else {
-        //In this case if we do nothing, the cursor in the Iterator will point to the root node
-        //Since this can be the only node in the tre we should add a marker that indicates that
-        //the Iterator is at the end state.
-        _is_in_end_state = true;
-    }
-}
-
-Void GridTreeConstIterator::find_next_enabled_leaf() {
-    if( _pGridTreeCursor.is_left_child() ) {
-        //Move to the parent node
-        _pGridTreeCursor.move_up();
-        //The right node must exist, due to the way we allocate the tree
-        //Also, this node is the root of the branch which we did not investigate.
-        _pGridTreeCursor.move_right();
-        //Find the first enabled leaf on this sub-tree
-        if( ! navigate_to(true) ){
-            //If there are no enabled leafs in the subtree, then
-            //move up and check the remaining branches recursively.
-            find_next_enabled_leaf();
-        }
-    } else {
-        if( _pGridTreeCursor.is_right_child() ) {
-            //Move to the parent node
-            _pGridTreeCursor.move_up();
-            //Move up and check the remaining branches recursively.
-            find_next_enabled_leaf();
-        } else {
-            //Is the root node already and we've seen all the leaf nodes
-            _is_in_end_state = true;
-        }
-    }
-}
-
-Bool GridTreeConstIterator::navigate_to(Bool firstLast){
-    Bool isEnabledLeafFound = false;
-    if( _pGridTreeCursor.is_leaf() ){
-        if ( _pGridTreeCursor.is_enabled() ) {
-            //If the leaf is enabled, then the search is over
-            isEnabledLeafFound = true;
-        }
-    } else {
-        //If it is not a leaf then we need to keep searching
-        if( firstLast ) {
-            //If we are looking for the first enabled
-            //node, then go to the left sub node
-            _pGridTreeCursor.move_left();
-        } else {
-            //Otherwise we go to the right
-            _pGridTreeCursor.move_right();
-        }
-        //Do recursive check of the newly visited node
-        isEnabledLeafFound = navigate_to( firstLast );
-        //If the leaf node is not found yet
-        if ( ! isEnabledLeafFound ) {
-            if( firstLast ) {
-                _pGridTreeCursor.move_right();
-            } else {
-                _pGridTreeCursor.move_left();
-            }
-            isEnabledLeafFound = navigate_to( firstLast );
-        }
-    }
-
-    //If the enabled leaf is not found and we are not in the root then we go back
-    if( ! isEnabledLeafFound && ! _pGridTreeCursor.is_root() ){
-        _pGridTreeCursor.move_up();
-    }
-
-    return isEnabledLeafFound;
-}
-
-Void GridTreeConstIterator::increment() {
-    //If we are not done iterating
-    if( ! _is_in_end_state){
-        //We are at some enabled-leaf node and we want to find the next one.
-        //The next node is somewhere on the right in the tree.
-        find_next_enabled_leaf();
-    }
-}
-
-Bool GridTreeConstIterator::equal( GridTreeConstIterator const & theOtherIterator) const {
-    //Check if both iterators are in the "end Iterator" state
-    Bool result = theOtherIterator._is_in_end_state && this->_is_in_end_state;
-
-    //If not then check if the cursors are equal (i.e. if they point to the same binary-tree node of the same (subpaving)
-    if( ! result ){
-        if( theOtherIterator._is_in_end_state || this->_is_in_end_state ){
-            //If at one is in the end state and the other is not then the answer is FALSE
-            result = false;
-        } else {
-            result = theOtherIterator._pGridTreeCursor == this->_pGridTreeCursor;
-        }
-    }
-
-    return result;
-}
-
-GridTreeConstIterator* GridTreeConstIterator::clone() const {
-    return new GridTreeConstIterator(*this);
-}
-
-Bool GridTreeConstIterator::equals( ForwardConstantIteratorInterface<GridCell> const & theOtherIterator) const {
-    GridTreeConstIterator const* theOtherIteratorPointer = dynamic_cast<GridTreeConstIterator const*>(&theOtherIterator);
-    return theOtherIteratorPointer && (this->equal(*theOtherIteratorPointer));
-}
-
-OutputStream& GridTreeConstIterator::_write(OutputStream& os) const {
-    return os << "GridTreeConstIterator(" << this->cursor() << ")";
-}
-
-
-//*******************************************GridTreeSubset******************************************/
-
-SizeType GridTreeSubpaving::size() const {
-    return BinaryTreeNode::count_enabled_leaf_nodes( this->binary_tree() );
-}
-
-Void GridTreeSubpaving::set_root_cell(Bool enabled_or_disabled)  {
-    this->_pRootTreeNode->set(enabled_or_disabled);
-}
-
-Void GridTreeSubpaving::mince_to_tree_depth( const Nat theNewTreeDepth ) {
-    _pRootTreeNode->mince( theNewTreeDepth );
-}
-
-Void GridTreeSubpaving::recombine() {
-    _pRootTreeNode->recombine();
-}
-
-Nat GridTreeSubpaving::tree_depth() const {
-    return _pRootTreeNode->depth();
-}
-
-Bool GridTreeSubpaving::operator==(const GridTreeSubpaving& anotherGridTreeSubset) const {
-    return ( this->_theGridCell == anotherGridTreeSubset._theGridCell ) &&
-        ( ( * this->_pRootTreeNode ) == ( * anotherGridTreeSubset._pRootTreeNode ) );
-}
-
-GridTreeSubpaving::GridTreeSubpaving( const Grid& theGrid, const Nat theExtent,
-                                       const BinaryWord& theWord, BinaryTreeNode * pRootTreeNode )
-    : _pRootTreeNode(pRootTreeNode), _theGridCell(theGrid, theExtent, theWord) {
-}
-
-GridTreeSubpaving::GridTreeSubpaving( const GridTreeSubpaving &otherSubset )
-    : _pRootTreeNode(otherSubset._pRootTreeNode),
-      _theGridCell(otherSubset._theGridCell) {
-}
-
-GridTreeSubpaving::~GridTreeSubpaving() {
-    //IVAN S ZAPREEV:
-    //WARNING: This method should have no implementation what so ever
-    //All the synamically allocatged data should be destroyed from the
-    //corresponding Paving object
-}
-
-inline Nat GridTreeSubpaving::compute_number_subdiv( FloatDP theWidth, const FloatDP theMaxWidth) const{
-    //Compute the minimum number of subdivisions N as:
-    //   minimum N : ( theWidth / 2^{N} ) <= theMaxWidth
-    //This is equivalent to (because all values are positive)
-    //   minimum N : theWidth / theMaxWidth <= 2^{N}
-    //log is a continuous-increasing dunction, thus the latter is
-    //equivalent to (since 0 < theMaxWidth, theWidth < infinite )
-    //   minimum N : log( theWidth / theMaxWidth ) <= N
-    //In computations then we need to take
-    //   N = ceil( log( theWidth / theMaxWidth ) )
-
-    //IVAN S ZAPREEV:
-    //NOTE: We take log_approx, log_approx because if we use _up and _down versions to maximize the answer,
-    //then it might become very inaccurate, and in case require more subdivisions than needed.
-    //NOTE: We need base 2 logarithm, we get it by the rule: log_a(b)/log_a(c) = log_c(a)
-    //PIETER COLLINS:
-    //NOTE: FloatDP now uses approximate operators by default
-    Nat result = 0;
-    if ( theWidth > theMaxWidth ){
-        //result = (Nat) ceil( div(approx, log(approx, div(approx, theWidth, theMaxWidth ) ) , log(approx, R(2.0) ) ) );
-        result = integer_cast<Nat>(ceil( div( near, log( near, div( near, theWidth, theMaxWidth ) ) , log( near, FloatDP(2.0_x,dp) ) ) ) );
-    }
-    return result;
-}
-
-Bool GridTreeSubpaving::is_empty() const {
-    return this->size() == 0;
-}
-
-DimensionType GridTreeSubpaving::dimension( ) const {
-    return grid().dimension();
-}
-
-
-const Grid& GridTreeSubpaving::grid() const {
-    return this->_theGridCell.grid();
-}
-
-GridCell GridTreeSubpaving::root_cell() const {
-    return _theGridCell;
-}
-
-UpperBoxType GridTreeSubpaving::bounding_box() const {
-    if(this->is_empty()) return ExactBoxType(this->dimension());
-
-    GridTreePaving::ConstIterator iter=this->begin();
-    UpperBoxType bbox = iter->box();
-
-    for( ; iter!=this->end(); ++iter) {
-        UpperBoxType cell = iter->box();
-        for(DimensionType i = 0; i < cell.dimension(); ++i) {
-            if(cell[i].lower_bound().raw() < bbox[i].lower_bound().raw()) bbox[i].set_lower_bound(cell[i].lower_bound());
-            if(cell[i].upper_bound().raw() > bbox[i].upper_bound().raw()) bbox[i].set_upper_bound(cell[i].upper_bound());
-        }
-    }
-
-    return bbox;
-
-}
-
-inline Nat GridTreeSubpaving::zero_cell_subdivisions_to_tree_subdivisions( const Nat numSubdivInDim, const Nat primaryCellExtent,
-                                                                           const Nat primaryToRootCellPathLength ) const {
-    //Here we take the extent of the primary cell that the subpaving's root cell is rooted to
-    //This extent times the number of dimensions is the number of subdivisions to make in
-    //the primary cell to reach the level of the zero cell. This plus the numSubdivInDim
-    //times the number of dimensions gives us the total number of the primary cell we have
-    //to make. But, the given paving is has the root node different from the primary cell,
-    //thus we have to subtract the length of the path from the primary cell to the root cell
-    //of this subpaving, to get the proper number of subdivisions to make in the binary tree
-    Int theTreeDepth = ( primaryCellExtent + numSubdivInDim ) * _theGridCell.grid().dimension() - primaryToRootCellPathLength;
-    //If the new depth is not positive then we already have the required number
-    //of subdivisions so then nothing has to be done, so we return zero!
-    return (theTreeDepth > 0) ? static_cast<Nat>(theTreeDepth) : 0u;
-}
-
-Void GridTreeSubpaving::mince( Nat numSubdivInDim ) {
-    mince_to_tree_depth( zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, _theGridCell.root_extent(), _theGridCell.word().size() ) );
-}
-
-Void GridTreeSubpaving::mince_to_depth( const Nat theNewDepth ) {
-    Int theNewTreeDepth = _theGridCell.root_extent() * _theGridCell.grid().dimension() + theNewDepth - _theGridCell.word().size();
-    _pRootTreeNode->mince( (theNewTreeDepth > 0) ? static_cast<Nat>(theNewTreeDepth) : 0u );
-}
-
-GridTreeSubpaving::ConstIterator GridTreeSubpaving::begin() const {
-    return GridTreeSubpaving::ConstIterator(this, true);
-}
-
-GridTreeSubpaving::ConstIterator GridTreeSubpaving::end() const {
-    return GridTreeSubpaving::ConstIterator(this, indeterminate);
-}
-
-const BinaryTreeNode * GridTreeSubpaving::binary_tree() const {
-    return _pRootTreeNode;
-}
-
-GridTreeSubpaving& GridTreeSubpaving::operator=( const GridTreeSubpaving &otherSubset) {
-    _pRootTreeNode = otherSubset._pRootTreeNode;
-    _theGridCell = otherSubset._theGridCell;
-
-    return *this;
-}
-
-inline GridTreeSubpaving* GridTreeSubpaving::_branch(Bool left_or_right) const {
-    return new GridTreeSubpaving(this->branch(left_or_right));
-}
-
-inline ForwardConstantIteratorInterface<GridCell>* GridTreeSubpaving::_begin() const {
-    return new GridTreeConstIterator(this->begin());
-}
-
-inline ForwardConstantIteratorInterface<GridCell>* GridTreeSubpaving::_end() const {
-    return new GridTreeConstIterator(this->end());
-}
-
-Bool GridTreeSubpaving::equals(const SubPavingInterface& paving) const {
-    return (*this) == dynamic_cast<const GridTreeSubpaving&>(paving);
-}
-
-Bool GridTreeSubpaving::superset(const GridCell& theCell) const {
-    return Ariadne::subset(theCell,*this);
-}
-
-Bool GridTreeSubpaving::subset(const SubPavingInterface& paving) const {
-    return Ariadne::subset(*this, dynamic_cast<const GridTreeSubpaving&>(paving));
-}
-
-Bool GridTreeSubpaving::intersects(const SubPavingInterface& paving) const {
-    return Ariadne::intersect(*this, dynamic_cast<const GridTreeSubpaving&>(paving));
-}
-
-GridTreeSubpaving* GridTreeSubpaving::clone( ) const {
-    // Return a GridTreeSet to ensure that memory is copied.
-    GridTreePaving* result = new GridTreePaving(this->grid(),this->_theGridCell.root_extent(),new BinaryTreeNode(false));
-    result->adjoin(*this);
-    return result;
-}
-
-
-GridTreeSubpaving GridTreeSubpaving::branch(Bool left_or_right) const {
-    BinaryWord theWord=this->_theGridCell.word();
-    theWord.append(left_or_right);
-    BinaryTreeNode* pBinaryTreeNode=this->_pRootTreeNode->child_node(left_or_right);
-    return GridTreeSubpaving(this->_theGridCell.grid(),this->_theGridCell.root_extent(),theWord,pBinaryTreeNode);
-}
-
-
-Void GridTreeSubpaving::subdivide( ApproximateDouble theInputMaxCellWidth ) {
-    //1. Take the ExactBoxType of this GridTreeSubset's GridCell
-    //   I.e. the box that corresponds to the root cell of
-    //   the GridTreeSubset in the original space.
-    const ExactBoxType& theRootCellBoxType = _theGridCell.box();
-
-    //2. Compute the widths of the box in each dimension and the maximum number
-    //   among the number of subdivisions that we need to do in each dimension
-    //   in order to make the width in this dimension <= theMaxCellWidth.
-    const DimensionType dimensions = _theGridCell.dimension();
-    Nat max_num_subdiv_dim = 0, num_subdiv = 0, max_subdiv_dim = 0;
-
-    FloatDP theMaxCellWidth(cast_exact(theInputMaxCellWidth),dp);
-
-    for(DimensionType i = 0; i < dimensions; i++){
-        //Get the number of required subdivisions in this dimension
-        //IVAN S ZAPREEV:
-        //NOTE: We compute sub_up because we do not want to have insufficient number of subdivisions
-        num_subdiv = compute_number_subdiv( sub(up, theRootCellBoxType[i].upper_bound(), theRootCellBoxType[i].lower_bound() ) , theMaxCellWidth );
-
-        //Compute the max number of subdivisions and the dimension where to do them
-        if( num_subdiv >= max_num_subdiv_dim ){
-            max_num_subdiv_dim = num_subdiv;
-            max_subdiv_dim = i;
-        }
-    }
-
-    //3. Let the maximum number of subdivisions M has to be done in dimension K  with the total number of
-    //   dimensions N: 1 <= K <= N. This means that from this cell down we have to do M splits for dimension K.
-    Nat needed_num_tree_subdiv = 0;
-    //If we need to subdivide in one of the dimensions then
-    if( max_num_subdiv_dim != 0 ){
-        //3.1 Compute the dimension C for which we had the last split, we should start with the primary cell which is the root of
-        //the GridTreeSet because from this cell we begin subdividing in dimension one by one: 1,2,...,N, then again 1,2,...,N.
-        //The path to the root of the sub-paving is given by the binary word, its length gives the number of tree subdivisions:
-        const Nat pathLength = _theGridCell.word().size();
-        //If pathLength == 0 then there were no subdivisions in the tree, so we assign last_subdiv_dim == -1
-        const Int last_subdiv_dim = ( pathLength == 0 ) ? -1 : static_cast<Int>(( pathLength - 1 )  % dimensions);
-
-        //3.2 Compute the needed number of tree subdivisions by first computing how many subdivisions in the tree
-        //we need to do to reach and split the dimension K one first time and then we should add the remaining
-        //( M - 1 )*N tree subdevisions which will make shure that the K'th dimension is subdivided M times.
-        Nat first_subdiv_steps;
-        if( last_subdiv_dim == static_cast<Int>(max_subdiv_dim) ) {
-            //If last_subdiv_dim == -1 then we will never get here
-            first_subdiv_steps = dimensions; // C == K
-        } else {
-            //If last_subdiv_dim == -1 then we will add a needed extra subdivision
-            first_subdiv_steps = static_cast<Nat>(static_cast<Int>(max_subdiv_dim) - last_subdiv_dim); // C < K
-            if( last_subdiv_dim > static_cast<Int>(max_subdiv_dim) ) {
-                //If last_subdiv_dim == -1 then we will never get here
-                first_subdiv_steps = dimensions - first_subdiv_steps; // C > K
-            }
-        }
-        needed_num_tree_subdiv = first_subdiv_steps + ( max_num_subdiv_dim - 1 ) * dimensions;
-    }
-
-    //Mince to the computed number of tree levels
-    mince_to_tree_depth(needed_num_tree_subdiv);
-}
-
-FloatDPApproximation GridTreeSubpaving::measure() const {
-    FloatDPApproximation result={0.0, dp};
-    for(ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
-        result+=iter->box().measure().value();
-    }
-    return result;
-}
-
-
-
-GridTreeSubpaving::operator ListSet<ExactBoxType>() const {
-    ListSet<ExactBoxType> result(this->root_cell().dimension());
-
-    //IVAN S ZAPREEV:
-    //NOTE: Push back the boxes, note that BoxListSet uses a vector, that
-    //in its turn uses std:vector to store boxes in it (via push_back method),
-    //the latter stores the copies of the boxes, not the references to them.
-    for (GridTreeSubpaving::ConstIterator it = this->begin(), end = this->end(); it != end; it++ ) {
-        result.push_back((*it).box());
-    }
-
-    return result;
-}
-
-Bool GridTreeSubpaving::superset( const ExactBoxType& theBoxType ) const {
-    //Check that the box corresponding to the root node of the set
-    //is not disjoint from theBoxType. If it is then the set is not a
-    //subset of theBoxType otherwise we need to traverse the tree and check
-    //if all it's enabled nodes give boxes that are subsets of theBoxType.
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    Bool isASubSet = theBoxType.subset( root_cell().box() );
-    if( ! isASubSet ) {
-        //If the box is not covered by the cell corresponding to the root node
-        //of the set, then clearly theBoxType is not a subset of this set.
-        return false;
-    } else {
-        //Otherwise, is theBoxType is possibly a subset then we try to see furhter
-        BinaryWord pathCopy( root_cell().word() );
-        return definitely( GridTreeSubpaving::_superset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) ) ;
-    }
-}
-
-Bool GridTreeSubpaving::subset( const ExactBoxType& theBoxType ) const {
-    //Check that the box corresponding to the root node of the set
-    //is not disjoint from theBoxType. If it is then the set is not a
-    //subset of theBoxType otherwise we need to traverse the tree and check
-    //if all it's enabled nodes give boxes that are subsets of theBoxType.
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    BinaryWord pathCopy( root_cell().word() );
-
-    return definitely( GridTreeSubpaving::_subset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) );
-}
-
-Bool GridTreeSubpaving::disjoint( const ExactBoxType& theBoxType ) const {
-    //Check that the box corresponding to the root node of the set
-    //is not disjoint from theBoxType. If it is then the set is not a
-    //subset of theBoxType otherwise we need to traverse the tree and check
-    //if all it's enabled nodes give boxes that are subsets of theBoxType.
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    BinaryWord pathCopy( root_cell().word() );
-
-    return definitely( GridTreeSubpaving::_disjoint( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) );
-}
-
-Bool GridTreeSubpaving::intersects( const ExactBoxType& theBoxType ) const {
-    //Check that the box corresponding to the root node of the set
-    //is not disjoint from theBoxType. If it is then the set is not a
-    //subset of theBoxType otherwise we need to traverse the tree and check
-    //if all it's enabled nodes give boxes that are subsets of theBoxType.
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    BinaryWord pathCopy( root_cell().word() );
-
-    return definitely( GridTreeSubpaving::_intersects( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) );
-}
-
-ValidatedLowerKleenean GridTreeSubpaving::covers( const ExactBoxType& theBoxType ) const {
-    //Simply check if theBoxType is covered by the set and then make sure that
-    //all tree cells that are not disjoint from theBoxType are enabled
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    Bool isASubSet = theBoxType.subset( root_cell().box() );
-    if( ! isASubSet ) {
-        //If the box is not covered by the cell corresponding to the root node
-        //of the set, then clearly theBoxType is not a subset of this set.
-        return false;
-    } else {
-        //Otherwise, is theBoxType is possibly a subset then we try to see furhter
-        BinaryWord pathCopy( root_cell().word() );
-        return GridTreeSubpaving::_superset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(widen(theBoxType)) );
-    }
-}
-
-ValidatedLowerKleenean GridTreeSubpaving::inside( const ExactBoxType& theBoxType ) const {
-    //Check that the box corresponding to the root node of the set
-    //is not disjoint from theBoxType. If it is then the set is not a
-    //subset of theBoxType otherwise we need to traverse the tree and check
-    //if all it's enabled nodes give boxes that are subsets of theBoxType.
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    BinaryWord pathCopy( root_cell().word() );
-
-    return GridTreeSubpaving::_subset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(narrow(theBoxType)) );
-}
-
-ValidatedLowerKleenean GridTreeSubpaving::separated( const ExactBoxType& theBoxType ) const {
-    //Simply check if the box does not intersect with the set
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    BinaryWord pathCopy( root_cell().word() );
-
-    return GridTreeSubpaving::_disjoint( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(widen(theBoxType)) );
-}
-
-ValidatedLowerKleenean GridTreeSubpaving::overlaps( const ExactBoxType& theBoxType ) const {
-    //Check if the box of the root cell overlaps with theBoxType,
-    //if not then theBoxType does not intersect with the cell,
-    //otherwise we need to find at least one enabled node
-    //in the binary tree, such that it's box overlaps theBoxType.
-
-    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
-
-    BinaryWord pathCopy( root_cell().word() );
-
-    return GridTreeSubpaving::_intersects( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(narrow(theBoxType)) );
-}
-
-ValidatedKleenean GridTreeSubpaving::_superset( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
-                                             const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
-    ValidatedKleenean result;
-
-    //Check if the current node's cell intersects with theBoxType
-    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
-    ValidatedKleenean doIntersect = theCellsBoxType.overlaps( theBoxType );
-
-    if( ! definitely(doIntersect) ) {
-        //If theBoxType does not intersect with the cell then for the covering relation
-        //is is not important if we add or remove this cell, so we return true
-        result = true;
-    } else {
-        //If the cell possibly intersects with theBoxType then
-        if( pCurrentNode->is_leaf() ) {
-            if( pCurrentNode->is_enabled() ){
-                //If this is an enabled node that possibly or definitely intersects
-                //with theBoxType then the covering property is fine, so we return true
-                result = true;
-            } else {
-                //If the node is disabled then if it definitely intersects with theBoxType
-                //we have to report false, as there is not covering, in case it is only
-                //possible intersecting with theBoxType then we return possibly. The latter
-                //is because we are not completely sure, if the intersection does not
-                //have place then the covering property is not broken.
-                result = ! doIntersect;
-            }
-        } else {
-            //The node is not a leaf so we need to go down and see if the cell
-            //falls into sub cells for which we can sort things out
-            theWord.push_back(false);
-            const ValidatedKleenean result_left = GridTreeSubpaving::_superset( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
-            theWord.pop_back();
-
-            if( definitely(not result_left) ) {
-                //If there is definitely no covering property then this is all
-                //we need to know so there is not need to check the other branch.
-                result = false;
-            } else {
-                //If the covering property holds or is possible, then we still
-                //need to check the second branch because it can change the outcome.
-                theWord.push_back(true);
-                const ValidatedKleenean result_right = GridTreeSubpaving::_superset( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
-                theWord.pop_back();
-
-                if( definitely(not result_right) ) {
-                    //IF: The right sub-node reports false, then the result is false
-                    //NOTE: We already sorted out the case of ( (!result_left) == true) before
-                    result = false;
-                } else {
-                    if( definitely(result_left && result_right) ) {
-                        //ELSE: If both sub-nodes report true then it is true
-                        result = true;
-                    } else {
-                        if( is_indeterminate(result_left) || is_indeterminate(result_right) ) {
-                            //ELSE: If one of the sub-nodes reports indeterminate then indeterminate,
-                            result = indeterminate;
-                        } else {
-                            //ELSE: An impossible situation
-                            ARIADNE_ASSERT( false );
-                        }
-                    }
-                }
-            }
-        }
-    }
-
-    return result;
-}
-
-ValidatedKleenean GridTreeSubpaving::_subset( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
-                                           const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
-    ValidatedKleenean result;
-
-    //Check if the current node overlaps with theBoxType
-    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
-    ValidatedKleenean isASubset = theCellsBoxType.subset( theBoxType );
-
-    if( definitely(isASubset) ){
-        //It does not matter if pCurrentNode has enableds leaves or not we already know that the cell
-        //corresponding to this node is geometrically a subset of theBoxType.
-        result = true;
-    } else {
-        //If the cell corresponding to pCurrentNode is not a subset, then
-        if( pCurrentNode->is_leaf() && definitely(not isASubset) ) {
-            //If pCurrentNode is a leaf node and geometrically the cell (corresponding to the node theCellsBoxType) is not a
-            //subset of theBoxType, then: if it is enabled then pCurrentNode is not a subset of theBoxType but otherwise it is.
-            result = ! pCurrentNode->is_enabled();
-        } else {
-            if( pCurrentNode->is_leaf() && is_indeterminate( isASubset ) ) {
-                //If we are in a leaf node but we do not know for sure if the given cell
-                //is a subset of theBoxType then we can only check if it is enabled or not
-                if( pCurrentNode->is_enabled() ){
-                    //For an enabled-leaf node (a filled cell) we do not know if it is a subset of theBoxType
-                    result = indeterminate;
-                } else {
-                    //The node is disabled, so it represents an empty set, which is a subset of any set
-                    result = true;
-                }
-            } else {
-                //The node is not a leaf, and we either know that the cell of pCurrentNode is not a geometrical subset
-                //of theBoxType or we are not sure that it is, This means that we can do recursion to sort things out.
-                theWord.push_back(false);
-                const ValidatedKleenean result_left = GridTreeSubpaving::_subset( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
-                theWord.pop_back();
-
-                if( definitely(not result_left) ) {
-                    //If the left branch is not a subset, then there is no need to check the right one
-                    result = false;
-                } else {
-                    //if we still do not know the answer, then we check the right branch
-                    theWord.push_back(true);
-                    const ValidatedKleenean result_right = GridTreeSubpaving::_subset( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
-                    theWord.pop_back();
-
-                    if( definitely(not result_right) ) {
-                        //IF: The right sub-node reports false, then the result is false
-                        //NOTE: We already sorted out the case of ( (!result_left) == true) before
-                        result = false;
-                    } else {
-                        if( definitely(result_left && result_right) ) {
-                            //ELSE: If both sub-nodes report true then it is true
-                            result = true;
-                        } else {
-                            if( is_indeterminate(result_left) || is_indeterminate(result_right) ) {
-                                //ELSE: If one of the sub-nodes reports indeterminate then indeterminate,
-                                result = indeterminate;
-                            } else {
-                                //ELSE: An impossible situation
-                                ARIADNE_ASSERT( false );
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
-
-    return result;
-}
-
-ValidatedKleenean GridTreeSubpaving::_disjoint( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
-                                             const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
-    ValidatedKleenean intersect;
-
-    //Check if the current node overlaps with theBoxType
-    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
-    ValidatedKleenean doPossiblyIntersect = !theCellsBoxType.disjoint( theBoxType );
-
-    if( possibly(doPossiblyIntersect) ) {
-        //If there is a possible intersection then we do the checking
-        if( pCurrentNode->is_leaf() ) {
-            //If this is a leaf node then
-            if( pCurrentNode->is_enabled() ){
-                //If the node is enabled, then we have a possible intersection
-                intersect = doPossiblyIntersect;
-            } else {
-                //Since the node is disabled, there can be no intersection
-                intersect = false;
-            }
-        } else {
-            //The node is not a leaf and the intersection is possible so check the left sub-node
-            theWord.push_back(false);
-            const ValidatedKleenean intersect_left = GridTreeSubpaving::_intersects( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
-            theWord.pop_back();
-
-            //
-            //WARNING: I know how to write a shorter code, like:
-            //          if( ! ( intersect = definitely( intersect_left ) ) ) {
-            //              ...
-            //          }
-            // I DO NOT DO THIS ON PERPOSE, KEEP THE CODE EASILY UNDERSTANDABLE!
-            //
-            if( definitely(intersect_left) ) {
-                //If we definitely have intersection for the left branch then answer is true
-                intersect = true;
-            } else {
-                //If we still not sure/ or do not know then try to search further, i.e. check the right node
-                theWord.push_back(true);
-                const ValidatedKleenean intersect_right = GridTreeSubpaving::_intersects( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
-                theWord.pop_back();
-                if( definitely(intersect_right) ) {
-                    //If we definitely have intersection for the right branch then answer is true
-                    intersect = true;
-                } else {
-                    //Now either we have indeterminate answers or we do not know, if one
-                    //if the answers for one of the branches was indeterminate then we
-                    //report indeterminate, otherwise it is definitely false.
-                    if( is_indeterminate( intersect_left ) || is_indeterminate( intersect_right )  ) {
-                        intersect = indeterminate;
-                    } else {
-                        intersect = false;
-                    }
-                    //ERROR: Substituting the above if statement with the following conditional assignement DOES NOT WORK:
-                    //    intersect = ( ( indeterminate( intersect_left ) || indeterminate( intersect_right ) ) ? indeterminate : false );
-                    //In this case, if we need to assign false, the proper branch of the conditional statement is executed,
-                    //but somehow the value of the "intersect" variable becomes indeterminate!
-                }
-            }
-        }
-    } else {
-        //If there is no intersection then we just stop with a negative intersect
-        intersect = false;
-    }
-
-    return !intersect;
-}
-
-ValidatedKleenean GridTreeSubpaving::_intersects( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
-                                               const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
-    ValidatedKleenean result;
-
-    //Check if the current node overlaps with theBoxType
-    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
-    ValidatedKleenean doPossiblyIntersect = theCellsBoxType.overlaps( theBoxType );
-
-    if( possibly(doPossiblyIntersect) ) {
-        //If there is a possible intersection then we do the checking
-        if( pCurrentNode->is_leaf() ) {
-            //If this is a leaf node then
-            if( pCurrentNode->is_enabled() ){
-                //If the node is enabled, then we have a possible intersection
-                result = doPossiblyIntersect;
-            } else {
-                //Since the node is disabled, there can be no intersection
-                result = false;
-            }
-        } else {
-            //The node is not a leaf and the intersection is possible so check the left sub-node
-            theWord.push_back(false);
-            const ValidatedKleenean result_left = GridTreeSubpaving::_intersects( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
-            theWord.pop_back();
-
-            //
-            //WARNING: I know how to write a shorter code, like:
-            //          if( ! ( result = definitely( result_left ) ) ) {
-            //              ...
-            //          }
-            // I DO NOT DO THIS ON PERPOSE, KEEP THE CODE EASILY UNDERSTANDABLE!
-            //
-            if( definitely(result_left) ) {
-                //If we definitely have intersection for the left branch then answer is true
-                result = true;
-            } else {
-                //If we still not sure/ or do not know then try to search further, i.e. check the right node
-                theWord.push_back(true);
-                const ValidatedKleenean result_right = GridTreeSubpaving::_intersects( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
-                theWord.pop_back();
-                if( definitely(result_right) ) {
-                    //If we definitely have intersection for the right branch then answer is true
-                    result = true;
-                } else {
-                    //Now either we have indeterminate answers or we do not know, if one
-                    //if the answers for one of the branches was indeterminate then we
-                    //report indeterminate, otherwise it is definitely false.
-                    if( is_indeterminate( result_left ) || is_indeterminate( result_right )  ) {
-                        result = indeterminate;
-                    } else {
-                        result = false;
-                    }
-                    //ERROR: Substituting the above if statement with the following conditional assignement DOES NOT WORK:
-                    //    result = ( ( indeterminate( result_left ) || indeterminate( result_right ) ) ? indeterminate : false );
-                    //In this case, if we need to assign false, the proper branch of the conditional statement is executed,
-                    //but somehow the value of the "result" variable becomes indeterminate!
-                }
-            }
-        }
-    } else {
-        //If there is no intersection then we just stop with a negative result
-        result = false;
-    }
-
-    return result;
-}
-
-Void GridTreeSubpaving::draw(CanvasInterface& theGraphic, const Projection2d& theProjection) const {
-    for(GridTreeSubpaving::ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
-        iter->box().draw(theGraphic,theProjection);
-    }
-}
-
-OutputStream&
-GridTreeSubpaving::_write(OutputStream& os) const
-{
-    return os << (*this);
-}
-
-//************************************FRIENDS OF GridTreeSubset*****************************************/
-
-Bool subset( const GridCell& theCell, const GridTreeSubpaving& theSet ) {
-    Bool result = false;
-
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theCell.grid() == theSet.grid() );
-
-    //Test if theCell is a subset of theSet, first check
-    //if the cell can be a subset of the given tree.
-    BinaryWord pathPrefixCell, pathPrefixSet;
-    if( subset( theCell, theSet.root_cell(), &pathPrefixCell, &pathPrefixSet, nullptr) ) {
-        //It can and thus pathPrefixSet is a prefix of pathPrefixCell. Both
-        //paths start in the same primary cell. Also note that pathPrefixSet
-        //is a path from primary_cell_extent to the root node of the binary
-        //tree in theSet. Therefore, removing 0..pathPrefixSet.size() elements
-        //from pathPrefixCell will give us a path to theCell in the tree of theSet.
-        pathPrefixCell.erase( pathPrefixCell.begin(), pathPrefixCell.begin() + static_cast<long>(pathPrefixSet.size()) );
-
-        //Check that the cell given by pathPrefixCell is enabled in the tree of theSet
-        result = theSet.binary_tree()->is_enabled( pathPrefixCell );
-    } else {
-        //DO NOTHING: the cell is a strict superset of the tree
-    }
-    return result;
-}
-
-Bool intersect( const GridCell& theCell, const GridTreeSubpaving& theSet ) {
-    Bool result = false;
-
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theCell.grid() == theSet.grid() );
-
-    //If the primary cell of the theCell is lower that that of theSet
-    //Then we re-root theCell to the primary cell theSet.root_cell().root_extent()
-    const GridCell * pWorkGridCell;
-    const Nat theSetsPCellExtent = theSet.root_cell().root_extent();
-    if( theSetsPCellExtent > theCell.root_extent() ) {
-        //Compute the path from the primary cell of theSet to the primary cell of theCell
-        BinaryWord pathFromSetsPCellToCell = GridCell::primary_cell_path( theCell.dimension(), theSetsPCellExtent, theCell.root_extent() );
-        pathFromSetsPCellToCell.append( theCell.word() );
-        pWorkGridCell = new GridCell( theCell.grid(), theSetsPCellExtent, pathFromSetsPCellToCell );
-    } else {
-        pWorkGridCell = &theCell;
-    }
-
-    //Compute the path for the primary cell of theCell to the primary cell of theSet
-    BinaryWord pathFromPCellCellToSetsRootNode = GridCell::primary_cell_path( theCell.dimension(), pWorkGridCell->root_extent(), theSetsPCellExtent );
-    //Append the path from the primary cell node to the root binary tree node of theSet
-    pathFromPCellCellToSetsRootNode.append( theSet.root_cell().word() );
-
-    const BinaryWord & workCellWord = pWorkGridCell->word();
-    if( workCellWord.is_prefix( pathFromPCellCellToSetsRootNode ) ) {
-        //If the path (from some primary cell) to the cell is a prefix
-        //of the path (from the same primary cell) to the root of the
-        //sub-paving, then theCell contains theSet
-
-        result = theSet.binary_tree()->has_enabled();
-    } else {
-        if( pathFromPCellCellToSetsRootNode.is_prefix( workCellWord ) ) {
-            //If the path (from some primary cell) to the root of the
-            //binary tree node (defining theSet) is the prefix of the
-            //path (from the same primary cell) to the cell, then the
-            //cell might be somwhere within the tree and we should
-            //check if it overlaps with the tree
-
-            const BinaryTreeNode *pCurrentNode = theSet.binary_tree();
-            //Note that, pathFromPCellCellToSetsRootNode.size() < workCellWord.size()
-            //Because we already checked for workCellWord.is_prefix( pathFromPCellCellToSetsRootNode )
-            //Here we try to find the node corresponding to theCell in the binary tree of theSet
-            //in case we encounter a leaf node then we just stop, because it is enough information for us
-            for( SizeType i = pathFromPCellCellToSetsRootNode.size(); i < workCellWord.size(); i++ ) {
-                if( pCurrentNode->is_leaf() ) {
-                    //We reached the leaf node and theCell is it's subset, so we stop now
-                    break;
-                } else {
-                    //Follow the path to the node corresponding to theCell within the binary tree of theSet
-                    pCurrentNode = ( workCellWord[i] ? pCurrentNode->right_node() : pCurrentNode->left_node() );
-                }
-            }
-
-            //At this point we have the following cases:
-            // 1. pCurrentNode - is a leaf node, contains theCell as a subset, is an enabled node
-            // RESULT: theSet and theCell overlap
-            // 2. pCurrentNode - is a leaf node, contains theCell as a subset, is a disabled node
-            // RESULT: theSet and theCell do not overlap
-            // 3. pCurrentNode - is a non-leaf node, corresponds to theCell, contains enabled sub-nodes
-            // RESULT: theSet and theCell overlap
-            // 4. pCurrentNode - is a non-leaf node, corresponds to theCell, contains no enabled sub-nodes
-            // RESULT: theSet and theCell do not overlap
-            result = pCurrentNode->has_enabled();
-        } else {
-            //DO NOTHING: The pathes to the cell and to the root of
-            //the binary tree (from the same primary cell) diverge
-            //This means that theCell and theSet do not overlap
-        }
-    }
-
-    if( theSetsPCellExtent > theCell.root_extent() ) {
-        delete pWorkGridCell;
-    }
-
-    return result;
-}
-
-// This is a helper method, it receives two GridTreeSubset elements
-// then it computes the primary cell that is common to them in a sence that
-// these sets can be rooted to it. After that the method updates the paths
-// with the information about the paths from the found primary cell to the
-// root binary tree nodes of both sets.
-static Void common_primary_cell_path(const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2, BinaryWord &pathCommonPCtoRC1, BinaryWord &pathCommonPCtoRC2 ) {
-    //Get the root cells for the subsets
-    GridCell rootCell1 = theSet1.root_cell();
-    GridCell rootCell2 = theSet2.root_cell();
-    //Get the extents of the primary cells for both subsets
-    const Nat extentPC1 = rootCell1.root_extent();
-    const Nat extentPC2 = rootCell2.root_extent();
-    if( extentPC2 > extentPC1 ) {
-        //Compute the path from the common primary cell to the root cell of theSet1
-        pathCommonPCtoRC1 = GridCell::primary_cell_path( rootCell1.dimension(), extentPC2, extentPC1 );
-        pathCommonPCtoRC1.append( rootCell1.word() );
-        //Compute the path from the common primary cell to the root cell of theSet2
-        pathCommonPCtoRC2 = rootCell2.word();
-    } else {
-        //Compute the path from the common primary cell to the root cell of theSet2
-        pathCommonPCtoRC1 = rootCell1.word();
-        //Compute the path from the common primary cell to the root cell of theSet1
-        pathCommonPCtoRC2 = GridCell::primary_cell_path( rootCell1.dimension(), extentPC1, extentPC2 );
-        pathCommonPCtoRC2.append( rootCell2.word() );
-    }
-}
-
-// This method locates the node in the tree rooted to pSuperTreeRootNode that corresponds to
-//  the path pathFromSuperToSub. In case we encounter a leaf node then we stop and return the node
-static const BinaryTreeNode * locate_node( const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord& pathFromSuperToSub ){
-    //Locate the node in the pSuperTreeRootNode such that it corresponds to pSubTreeRootNode
-    const BinaryTreeNode * pCurrentSuperTreeNode = pSuperTreeRootNode;
-    for( SizeType i = 0; i < pathFromSuperToSub.size(); i++ ) {
-        if( pCurrentSuperTreeNode->is_leaf() ) {
-            //We are in the leaf node and we have not yet reached the node
-            //corresponding to pSubTreeRootNode, because i < pathFromSuperToSub.size()
-            break;
-        } else {
-            pCurrentSuperTreeNode = ( pathFromSuperToSub[i] ? pCurrentSuperTreeNode->right_node() : pCurrentSuperTreeNode->left_node() );
-        }
-    }
-    return pCurrentSuperTreeNode;
-}
-
-// \brief This is a helper functiuon for Bool subset( const GridTreeSubset& theSet1, const GridTreeSubset& theSet2 )
-// pSuperTreeRootNode is the root tree node, pathFromSuperToSub is the path from this root node to the root node
-// pSubTreeRootNode. In general we see if the set represented by pSubTreeRootNode is a subset of pSuperTreeRootNode.
-// If pSubTreeRootNode has no enabled leaf nodes then the result is always true, else if pSuperTreeRootNode has no
-// enabled leaf nodes then the result is always false.
-static Bool subset(const BinaryTreeNode * pSubTreeRootNode, const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord & pathFromSuperToSub) {
-    Bool result = false;
-
-    //Check if both sets are not empty
-    if( pSubTreeRootNode->has_enabled() ) {
-        if( pSuperTreeRootNode->has_enabled() ) {
-            //Locate the node in pSuperTreeRootNode, by following the path pathFromSuperToSub
-            const BinaryTreeNode * pCurrentSuperTreeNode = locate_node( pSuperTreeRootNode, pathFromSuperToSub );
-
-            if( pCurrentSuperTreeNode->is_leaf() ) {
-                //If we've reached the leaf node then pSubTreeRootNode is a subset of pSuperTreeRootNode if this
-                //node is enabled, otherwise not. This is because we know that pSubTreeRootNode is not empty.
-                result = pCurrentSuperTreeNode->is_enabled();
-            } else {
-                //At this point pCurrentSuperTreeNode corresponds to pSubTreeRootNode
-                //So the trees are aligned now and we can continue checking further.
-                result = BinaryTreeNode::subset( pSubTreeRootNode, pCurrentSuperTreeNode );
-            }
-        } else {
-            //Nothing is a subset of an empty set except for an empty
-            //set, but we know that pSubTreeRootNode is not empty.
-            result = false;
-        }
-    } else {
-        //An empty set is a subset of any set including the empty set itself
-        result = true;
-    }
-
-    return result;
-}
-
-// This is a helper functiuon for Bool subset( const GridTreeSubset& theSet1, const GridTreeSubset& theSet2 )
-// pSuperTreeRootNode is the root tree node, pathFromSuperToSub is the path from this root node to the root node
-// pSubTreeRootNode. In general we see if the set represented by pSuperTreeRootNode is a subset of pSubTreeRootNode.
-// If pSuperTreeRootNode has no enabled leaf nodes then the result is always true, else if pSubTreeRootNode has no
-// enabled leaf nodes then the result is always false.
-static Bool subset( const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord & pathFromSuperToSub, const BinaryTreeNode * pSubTreeRootNode ) {
-    Bool result = false;
-
-    //First we iterate throught the path pathFromSuperToSub trying to reach the common node with pSubTreeRootNode
-    //Since we want to know if pSuperTreeRootNode is a subset of pSubTreeRootNode, the branches of pSuperTreeRootNode
-    //that we ommit traveling the path pathFromSuperToSub, should contain no enabled leaf nodes. Because otherwise
-    //pSuperTreeRootNode is not a subset of pSubTreeRootNode. Apart from this, once we encounter a leaf node on the
-    //path we stop because the we can already decide if pSuperTreeRootNode is a subset of pSubTreeRootNode.
-    Nat path_element = 0;
-    Bool areExtraLeavesDisabled = true;
-    const BinaryTreeNode *pCurrentSuperTreeNode = pSuperTreeRootNode;
-    while( ( path_element < pathFromSuperToSub.size() ) && areExtraLeavesDisabled ) {
-        if( pCurrentSuperTreeNode->is_leaf() ){
-            //We ended up in a leaf node so we have to stop iterating through the path
-            break;
-        } else {
-            if( pathFromSuperToSub[ path_element ] ) {
-                //The path goes right, check if the left branch has no enabled leaves
-                areExtraLeavesDisabled = ! pCurrentSuperTreeNode->left_node()->has_enabled();
-                pCurrentSuperTreeNode = pCurrentSuperTreeNode->right_node();
-            } else {
-                //The path goes left, check if the right branch has no enabled leaves
-                areExtraLeavesDisabled = ! pCurrentSuperTreeNode->right_node()->has_enabled();
-                pCurrentSuperTreeNode = pCurrentSuperTreeNode->left_node();
-            }
-        }
-        path_element++;
-    }
-
-    if( areExtraLeavesDisabled ) {
-        //If pSuperTreeRootNode does not have enabled leaves that are outside the bounding cell of
-        //pSubTreeRootNode, this means that pSuperTreeRootNode can be a subset of pSubTreeRootNode.
-        //Now we have to check that:
-        if( pCurrentSuperTreeNode->is_leaf() ) {
-            //A) We reached a leaf node, when following the path, then
-            if( pCurrentSuperTreeNode->is_enabled() ) {
-                //1. If it is enabled then it depends on whether we followed the path to the end
-                if( path_element < pathFromSuperToSub.size() ) {
-                    //1.1 If the path was not finished then pSuperTreeRootNode is a superset of pSubTreeRootNode
-                    result = false;
-                } else {
-                    //1.2 If the path was ended, i.e. pCurrentSuperTreeNode and pSubTreeRootNode are
-                    //aligned, then we simply need to check if one tree is a subset of another:
-                    //     Bool subset(const BinaryTreeNode *, const BinaryTreeNode * )
-                    result = BinaryTreeNode::subset( pCurrentSuperTreeNode, pSubTreeRootNode );
-                }
-            } else {
-                //2. if it is disabled then pSuperTreeRootNode is empty and thus is a subset of theSet2
-                result = true;
-            }
-        } else {
-            //B) We are in a non-leaf node, so we definitely reached the end of the path,
-            //thus proceed like in case A.1.2 (the root nodes of both trees are aligned )
-            result = BinaryTreeNode::subset( pCurrentSuperTreeNode, pSubTreeRootNode );
-        }
-    } else {
-        //If there are enabled leaf nodes in theSet1 that are outside of the bounding cell of
-        //pSubTreeRootNode, then clearly pSuperTreeRootNode is not a subset of pSubTreeRootNode.
-        result = false;
-    }
-    return result;
-}
-
-Bool subset( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
-    Bool result = false;
-
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
-
-    //Define paths for the root cells of theSet1 and theSet2 from the common primary cell
-    BinaryWord pathCommonPCtoRC1;
-    BinaryWord pathCommonPCtoRC2;
-    //Get the paths from the common primary cell to the root nodes of the set's binary trees
-    common_primary_cell_path( theSet1, theSet2, pathCommonPCtoRC1, pathCommonPCtoRC2 );
-
-    //At this point we know paths from the common primary cell
-    //to the root nodes of both subsets. If one of these paths is a prefix of
-    //the other one, then there is a chance that theSet1 is a subset of theSet2.
-    //If not, then they definitely do not overlap.
-    if( pathCommonPCtoRC1.is_prefix( pathCommonPCtoRC2 ) ) {
-        //In this case theSet2 is a subset of the bounding cell of theSet1. Still
-        //it is possible that theSet1 is a subset of theSet2 if all cells of theSet1
-        //outside the bounding box of theSet2 are disabled cells. This we check by
-        //following the path from the foor of theSet1 to the root of theSet2.
-        pathCommonPCtoRC2.erase_prefix( pathCommonPCtoRC1.size() );
-        result = subset( theSet1.binary_tree(), pathCommonPCtoRC2, theSet2.binary_tree() );
-    } else {
-        if( pathCommonPCtoRC2.is_prefix( pathCommonPCtoRC1 ) ) {
-            //Since pathCommonPCtoRC2 is a prefix of pathCommonPCtoRC1,
-            //theSet1 can be a subset of theSet2. This is because theSet1
-            //lies within the bounding cell of theSet2
-            pathCommonPCtoRC1.erase_prefix( pathCommonPCtoRC2.size() );
-            result = subset( theSet1.binary_tree(), theSet2.binary_tree(), pathCommonPCtoRC1 );
-        } else {
-            //The bounding boxes are disjoint, due to paths (from the common primary cell to
-            //their root nodes) that have different suffixes, so theSet1 is a subset of theSet2
-            //only if it is empty.
-            result = !theSet1.binary_tree()->has_enabled();
-        }
-    }
-
-    return result;
-}
-
-// This is a helper functiuon for Bool overlap( const GridTreeSubset& theSet1, const GridTreeSubset& theSet2 )
-// pSuperTreeRootNode is the root tree node, pathFromSuperToSub is the path from this root node to the root node
-// pSubTreeRootNode. In general we see if the sets represented by pSuperTreeRootNode and pSubTreeRootNode overlap.
-// If at least one of pSuperTreeRootNode and pSubTreeRootNode have no enabled leaf nodes then the result is always false.
-static Bool intersect(const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord & pathFromSuperToSub, const BinaryTreeNode * pSubTreeRootNode) {
-    Bool result = false;
-
-    //Check if both sets are not empty
-    if( pSuperTreeRootNode->has_enabled() && pSubTreeRootNode->has_enabled() ) {
-
-        //Locate the node in pSuperTreeRootNode, by following the path pathFromSuperToSub
-        const BinaryTreeNode * pCurrentSuperTreeNode = locate_node( pSuperTreeRootNode, pathFromSuperToSub );
-
-        if( pCurrentSuperTreeNode->is_leaf() ) {
-            //If we've reached the leaf node then the sets overlap if this node is enabled,
-            //otherwise not. This is because we know that pSubTreeRootNode is not empty.
-            result = pCurrentSuperTreeNode->is_enabled();
-        } else {
-            //At this point pCurrentSuperTreeNode corresponds to pSubTreeRootNode
-            //So the trees are aligned now and we can continue checking further.
-            result = BinaryTreeNode::intersect( pCurrentSuperTreeNode, pSubTreeRootNode );
-        }
-    }
-
-    return result;
-}
-
-Bool intersect( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
-    Bool result = false;
-
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
-
-    //Define paths for the root cells of theSet1 and theSet2 from the common primary cell
-    BinaryWord pathCommonPCtoRC1;
-    BinaryWord pathCommonPCtoRC2;
-    //Get the paths from the common primary cell to the root nodes of the set's binary trees
-    common_primary_cell_path( theSet1, theSet2, pathCommonPCtoRC1, pathCommonPCtoRC2 );
-
-    //At this point we know paths from the common primary cell
-    //to the root nodes of both subsets. If one of these paths is a prefix of
-    //the other one, then there is a chance that the subsets overlap.
-    //If not, then they definitely do not overlap.
-    if( pathCommonPCtoRC1.is_prefix( pathCommonPCtoRC2 ) ){
-        //theSet2 is located somewhere within the bounding box of theSet1
-        pathCommonPCtoRC2.erase_prefix( pathCommonPCtoRC1.size() );
-        result = intersect( theSet1.binary_tree(), pathCommonPCtoRC2, theSet2.binary_tree() );
-    } else {
-        if( pathCommonPCtoRC2.is_prefix( pathCommonPCtoRC1 ) ){
-            //theSet1 is located somewhere within the bounding box of theSet2
-            pathCommonPCtoRC1.erase_prefix( pathCommonPCtoRC2.size() );
-            result = intersect( theSet2.binary_tree(), pathCommonPCtoRC1, theSet1.binary_tree() );
-        } else {
-            //The sets do not overlap
-            result = false;
-        }
-    }
-
-    return result;
-}
-
-OutputStream& operator<<(OutputStream& os, const GridTreeSubpaving& theGridTreeSubset) {
-    return os << "GridTreeSubset( Primary cell: " << theGridTreeSubset.root_cell() << ", " << (*theGridTreeSubset.binary_tree()) <<" )";
-}
-
-
-//********************************************GridTreeSet*********************************************/
-
-GridCell GridTreePaving::smallest_enclosing_primary_cell( const UpperBoxType& theBoxType ) const {
-    ARIADNE_ASSERT_MSG( this->dimension() == theBoxType.dimension(), "Cannot find enclosing cell for ExactBoxType  " << theBoxType << " for GridTreeSet with grid " << this->grid() );
-
-    return GridCell::smallest_enclosing_primary_cell( theBoxType, this->grid() );
-}
-
-Void GridTreePaving::adjoin( const GridCell& theCell ) {
-    ARIADNE_ASSERT_MSG( this->grid() == theCell.grid(), "Cannot adjoin GridCell with grid "<<theCell.grid()<<" to GridTreeSet with grid "<<this->grid() );
-    Bool has_stopped = false;
-    //Align the paving and the cell
-    BinaryTreeNode* pBinaryTreeNode = align_with_cell( theCell.root_extent(), true, false, has_stopped );
-
-    //If we are not trying to adjoin something into an enabled sub cell of the paving
-    if( ! has_stopped ){
-        //Add the enabled cell to the binary tree.
-        pBinaryTreeNode->add_enabled( theCell.word() );
-    }
-}
-
-Void GridTreePaving::adjoin( const GridTreeSubpaving& theOtherSubPaving ) {
-    ARIADNE_ASSERT_MSG( this->grid() == theOtherSubPaving.root_cell().grid(), "Cannot adjoin GridTreeSubset with grid "<<theOtherSubPaving.root_cell().grid()<<" to GridTreeSet with grid "<<this->grid() );
-
-    Bool has_stopped = false;
-    //Align the paving and the cell
-    BinaryTreeNode* pBinaryTreeNode = align_with_cell( theOtherSubPaving.root_cell().root_extent(), true, false, has_stopped );
-
-    //If we are not trying to adjoin something into an enabled sub cell of the paving
-    if( ! has_stopped ){
-        //Now, the pBinaryTreeNode of this paving corresponds to the primary cell common with theOtherSubPaving.
-        //The theOtherSubPaving's root node is defined the path theOtherSubPaving.word() which starts in the
-        //node corresponding to the common primary cell.
-        pBinaryTreeNode->add_enabled( theOtherSubPaving.binary_tree(), theOtherSubPaving.root_cell().word() );
-    }
-}
-
-Void GridTreePaving::adjoin( const SubPavingInterface& theOtherSubPaving ) {
-    this->adjoin(dynamic_cast<const GridTreeSubpaving&>(theOtherSubPaving));
-}
-
-Void GridTreePaving::restrict( const SubPavingInterface& theOtherSubPaving ) {
-    this->restrict(dynamic_cast<const GridTreeSubpaving&>(theOtherSubPaving));
-}
-
-Void GridTreePaving::remove( const SubPavingInterface& theOtherSubPaving ) {
-    this->remove(dynamic_cast<const GridTreeSubpaving&>(theOtherSubPaving));
-}
-
-
-GridTreePaving::GridTreePaving( ) : GridTreeSubpaving( Grid(), 0, BinaryWord(), new BinaryTreeNode( false ) ){
-}
-
-GridTreePaving::GridTreePaving( const Grid& theGrid, const Bool enable  ) :
-    GridTreeSubpaving( theGrid, 0, BinaryWord(), new BinaryTreeNode( enable ) ){
-}
-
-GridTreePaving::GridTreePaving( const Grid& theGrid, const Nat theExtent, BinaryTreeNode * pRootTreeNode ) :
-    GridTreeSubpaving( theGrid, theExtent, BinaryWord(), pRootTreeNode ){
-}
-
-GridTreePaving::GridTreePaving( const GridCell& theGridCell  ) :
-    GridTreeSubpaving( theGridCell.grid(), theGridCell.root_extent(), BinaryWord(), new BinaryTreeNode( false ) ){
-    this->adjoin(theGridCell);
-}
-
-GridTreePaving::GridTreePaving( const Nat theDimension, const Bool enable ) :
-    GridTreeSubpaving( Grid( theDimension, FloatDP(1.0_x,dp) ), 0, BinaryWord(), new BinaryTreeNode( enable )) {
-    //We want a [0,1]x...[0,1] cell in N dimensional space with no sxaling or shift of coordinates:
-    //1. Create a new non scaling grid with no shift of the coordinates
-    //2. The extent of the primary cell is zero, since is is [0,1]x...[0,1] itself
-    //3. The binary word that describes the path from the primary cell to the root
-    //   of the tree is empty, because any paving always has a primary cell as a root
-    //4. A new disabled binary tree node, gives us the root for the paving tree
-}
-
-GridTreePaving::GridTreePaving(const Grid& theGrid, const ExactBoxType & theLatticeBoxType ) :
-    GridTreeSubpaving( theGrid, GridCell::smallest_enclosing_primary_cell_extent( theLatticeBoxType ),
-                    BinaryWord(), new BinaryTreeNode( false ) ) {
-    //1. The main point here is that we have to compute the smallest primary cell that contains theBoundingBoxType
-    //2. This cell is defined by it's extent and becomes the root of the GridTreeSet
-    //3. ExactPoint 2. implies that the word to the root of GridTreeSubset should be set to
-    //   empty and we have only one disabled node in the binary tree
-}
-
-GridTreePaving::GridTreePaving( const Grid& theGrid, Nat theExtent, const BooleanArray& theTree, const BooleanArray& theEnabledCells ) :
-    GridTreeSubpaving( theGrid, theExtent, BinaryWord(), new BinaryTreeNode( theTree, theEnabledCells ) ) {
-    //Use the super class constructor and the binary tree constructed from the arrays: theTree and theEnabledCells
-}
-
-GridTreePaving::GridTreePaving( const GridTreePaving & theGridTreeSet ) :
-    GridTreeSubpaving( theGridTreeSet._theGridCell.grid(), theGridTreeSet._theGridCell.root_extent(),
-                    theGridTreeSet._theGridCell.word(), new BinaryTreeNode( *theGridTreeSet._pRootTreeNode )) {
-    //Call the super constructor: Create an exact copy of the tree, copy the bounding box
-}
-
-GridTreePaving& GridTreePaving::operator=( const GridTreePaving & theGridTreeSet ) {
-    //Delete the old tree and make a new one
-    if(this!=&theGridTreeSet) {
-        if( GridTreeSubpaving::_pRootTreeNode != nullptr){
-            delete GridTreeSubpaving::_pRootTreeNode;
-            GridTreeSubpaving::_pRootTreeNode = nullptr;
-        }
-        static_cast<GridTreeSubpaving&>(*this) =
-            GridTreeSubpaving( theGridTreeSet._theGridCell.grid(), theGridTreeSet._theGridCell.root_extent(),
-                            theGridTreeSet._theGridCell.word(), new BinaryTreeNode( *theGridTreeSet._pRootTreeNode ));
-    }
-    return *this;
-}
-
-GridTreePaving* GridTreePaving::clone() const {
-    return new GridTreePaving( *this );
-}
-
-GridTreePaving::~GridTreePaving() {
-    if( GridTreeSubpaving::_pRootTreeNode != nullptr){
-        delete GridTreeSubpaving::_pRootTreeNode;
-        GridTreeSubpaving::_pRootTreeNode = nullptr;
-    }
-}
-
-Void GridTreePaving::up_to_primary_cell( const Nat toPCellExtent ){
-    const Nat fromPCellExtent = this->root_cell().root_extent();
-
-    //The primary cell of this paving is lower then the one in the other paving so this
-    //paving's has to be rerooted to another primary cell and then we merge the pavings.
-    //1. Compute the path
-    BinaryWord primaryCellPath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), toPCellExtent, fromPCellExtent );
-    //2. Substitute the root node of the paiving with the extended tree
-    this->_pRootTreeNode = BinaryTreeNode::prepend_tree( primaryCellPath, this->_pRootTreeNode );
-    //3. Update the GridCell that corresponds to the root of this GridTreeSubset
-    this->_theGridCell = GridCell( this->_theGridCell.grid(), toPCellExtent, BinaryWord() );
-}
-
-BinaryTreeNode* GridTreePaving::align_with_cell( const Nat otherPavingPCellExtent, const Bool stop_on_enabled,
-                                                 const Bool stop_on_disabled, Bool & has_stopped ) {
-    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
-
-    //The current root node of the GridTreeSet
-    BinaryTreeNode * pBinaryTreeNode = this->_pRootTreeNode;
-
-    if( thisPavingPCellExtent > otherPavingPCellExtent ){
-
-        //The primary cell of this paving is higher then the one of the other paving.
-        //1. We locate the path to the primary cell node common with the other paving
-        BinaryWord primaryCellPath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), thisPavingPCellExtent, otherPavingPCellExtent );
-
-        //2. Locate the binary tree node corresponding to this primnary cell
-        Nat position = 0;
-        while( position < primaryCellPath.size() &&
-               !( has_stopped = ( ( pBinaryTreeNode->is_enabled() && stop_on_enabled ) ||
-                                  ( pBinaryTreeNode->is_disabled() && stop_on_disabled ) ) ) ){
-            //Split the node, if it is not a leaf it will not be changed
-            pBinaryTreeNode->split();
-            //Follow the next path step
-            pBinaryTreeNode = (primaryCellPath[position]) ? pBinaryTreeNode->right_node() : pBinaryTreeNode->left_node();
-            //Move to the next path element
-            position++;
-        }
-    } else {
-        if( thisPavingPCellExtent < otherPavingPCellExtent ) {
-            up_to_primary_cell( otherPavingPCellExtent );
-            pBinaryTreeNode = this->_pRootTreeNode;
-        } else {
-            //If we are rooted to the same primary cell, then there
-            //is nothing to be done, except adding the enabled cell
-        }
-    }
-    return pBinaryTreeNode;
-}
-
-Void GridTreePaving::_adjoin_cell( const Nat theCellRootExtent, BinaryWord const& theCellPath ) {
-    Bool has_stopped = false;
-    BinaryTreeNode* pBinaryTreeNode = this->align_with_cell( theCellRootExtent, true, false, has_stopped );
-    if( ! has_stopped ){
-        //Add the enabled cell to the binary tree.
-        pBinaryTreeNode->add_enabled( theCellPath );
-    }
-}
-
-
-Void GridTreePaving::_adjoin_outer_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
-                                                  const Nat max_mince_tree_depth,  const EffectiveEuclideanCompactSetInterface& theSet, BinaryWord * pPath ){
-    //Compute the cell corresponding to the current node
-    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
-
-    const EffectiveEuclideanOpenSetInterface* pOpenSet=dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(static_cast<const EuclideanSetInterfaceBase*>(&theSet));
-
-    if( definitely( theSet.separated( theCurrentCell.box() ) ) ) {
-        //DO NOTHING: We are in the node whoes representation in the original space is
-        //disjoint from pSet and thus there will be nothing added to this cell.
-    } else if( pOpenSet && definitely( pOpenSet->covers( theCurrentCell.box() ) ) ) {
-        pBinaryTreeNode->make_leaf(true);
-    } else {
-        //This node's cell is not disjoint from theSet, thus it is possible to adjoin elements
-        //of its outer approximation, unless this node is already and enabled leaf node.
-        if( pBinaryTreeNode->is_enabled() ){ //NOTE: A non-leaf node can not be enabled so this check suffices
-            //DO NOTHING: If it is enabled, then we can not add anything new to it.
-        } else {
-            //If the node is not enabled, so may be we can add something from the outer approximation of theSet.
-            if( pPath->size() < max_mince_tree_depth ){
-                //Since we still do not have the finest cells for the outer approximation of theSet, we split
-                pBinaryTreeNode->split(); //NOTE: splitting a non-leaf node does not do any harm
-                //Check the left branch
-                pPath->push_back(false);
-                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-                //Check the right branch
-                pPath->push_back(true);
-                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-            } else {
-                //We should not mince any further, so since the node is a leaf and
-                //it's cell is not disjoint from theSet, we mark the node as enabled.
-                if( !pBinaryTreeNode->is_leaf() ){
-                    //If the node is not leaf, then we make it an enabled one
-                    pBinaryTreeNode->make_leaf(true);
-                } else {
-                    //Just make the node enabled
-                    pBinaryTreeNode->set_enabled();
-                }
-            }
-        }
-    }
-    //Return to the previous level, since the initial evaluate is made
-    //with the empty word, we check that it is not yet empty.
-    if( pPath->size() > 0 ) {
-        pPath->pop_back();
-    }
-}
-
-Void GridTreePaving::_adjoin_outer_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
-                                                  const Nat max_mince_tree_depth,  const ValidatedEuclideanCompactSetInterface& theSet, BinaryWord * pPath ){
-    //Compute the cell correspomding to the current node
-    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
-
-    const EffectiveEuclideanOpenSetInterface* pOpenSet=dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(static_cast<const EuclideanSetInterfaceBase*>(&theSet));
-
-    if( definitely( theSet.separated( theCurrentCell.box() ) ) ) {
-        //DO NOTHING: We are in the node whoes representation in the original space is
-        //disjoint from pSet and thus there will be nothing added to this cell.
-    } else if( pOpenSet && definitely( pOpenSet->covers( theCurrentCell.box() ) ) ) {
-        pBinaryTreeNode->make_leaf(true);
-    } else {
-        //This node's cell is not disjoint from theSet, thus it is possible to adjoin elements
-        //of its outer approximation, unless this node is already and enabled leaf node.
-        if( pBinaryTreeNode->is_enabled() ){ //NOTE: A non-leaf node can not be enabled so this check suffices
-            //DO NOTHING: If it is enabled, then we can not add anything new to it.
-        } else {
-            //If the node is not enabled, so may be we can add something from the outer approximation of theSet.
-            if( pPath->size() < max_mince_tree_depth ){
-                //Since we still do not have the finest cells for the outer approximation of theSet, we split
-                pBinaryTreeNode->split(); //NOTE: splitting a non-leaf node does not do any harm
-                //Check the left branch
-                pPath->push_back(false);
-                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-                //Check the right branch
-                pPath->push_back(true);
-                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-            } else {
-                //We should not mince any further, so since the node is a leaf and
-                //it's cell is not disjoint from theSet, we mark the node as enabled.
-                if( !pBinaryTreeNode->is_leaf() ){
-                    //If the node is not leaf, then we make it an enabled one
-                    pBinaryTreeNode->make_leaf(true);
-                } else {
-                    //Just make the node enabled
-                    pBinaryTreeNode->set_enabled();
-                }
-            }
-        }
-    }
-    //Return to the previous level, since the initial evaluate is made
-    //with the empty word, we check that it is not yet empty.
-    if( pPath->size() > 0 ) {
-        pPath->pop_back();
-    }
-}
-
-// FIXME: This method can fail if we cannot determine which of a node's children overlaps
-// the set. In principle this can be solved by checking if one of the children overlaps
-// the set, before doing recursion, and if none overlaps then we mark the present node as
-// enabled and stop. Generally speaking, the present algorithm is not wrong, it also gives us
-// a lower approximation, but it is simply less accurate than it could be.
-// TODO:Think of another representation in terms of covers but not pavings, then this problem
-// can be cured in a different fashion.
-Void GridTreePaving::_adjoin_lower_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
-                                                  const Nat max_mince_tree_depth,  const EffectiveEuclideanOvertSetInterface& theSet, BinaryWord * pPath ){
-    //Compute the cell correspomding to the current node
-    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
-
-    if( definitely( theSet.overlaps( theCurrentCell.box() ) ) ) {
-        if( pPath->size() >= max_mince_tree_depth ) {
-            //We should not mince any further.
-            //If the cell is not a leaf, then some subset is enabled,
-            //so the lower approximation does not add any information.
-            //If the cell is a leaf, we mark it as enabled.
-            if( ! pBinaryTreeNode->has_enabled() ) {
-                pBinaryTreeNode->make_leaf(true);
-            }
-        } else {
-            //If the node is no enabled, so may be we can add something from the lower approximation of theSet.
-            //Since we still do not have the finest cells for the lower approximation of theSet, we split
-            pBinaryTreeNode->split(); //NOTE: splitting a non-leaf node does not do any harm
-            //Check the left branch
-            pPath->push_back(false);
-            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-            //Check the right branch
-            pPath->push_back(true);
-            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-        }
-    }
-    //Return to the previous level, since the initial evaluate is made
-    //with the empty word, we check that it is not yet empty.
-    if( pPath->size() > 0 ) {
-        pPath->pop_back();
-    }
-}
-
-Void GridTreePaving::_adjoin_lower_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
-                                                  const Nat max_mince_tree_depth,  const EffectiveEuclideanOpenSetInterface& theSet, BinaryWord * pPath ){
-    //Compute the cell corresponding to the current node
-    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
-
-    if( definitely( theSet.covers( theCurrentCell.box() ) ) ) {
-        pBinaryTreeNode->make_leaf(true);
-        pBinaryTreeNode->mince( max_mince_tree_depth - pPath->size() );
-    } else if ( definitely( theSet.overlaps( theCurrentCell.box() ) ) ) {
-        if( pPath->size() >= max_mince_tree_depth ) {
-            //We should not mince any further.
-            //If the cell is not a leaf, then some subset is enabled,
-            //so the lower approximation does not add any information.
-            //If the cell is a leaf, we mark it as enabled.
-            if( pBinaryTreeNode->is_leaf() ) {
-                pBinaryTreeNode->set_enabled();
-            }
-        } else {
-            //Since we still do not have the finest cells for the outer approximation of theSet, we split
-            pBinaryTreeNode->split();  //NOTE: splitting a non-leaf node does not do any harm
-
-            //Check the left branch
-            pPath->push_back(false);
-            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-            //Check the right branch
-            pPath->push_back(true);
-            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-        }
-    }
-    //Return to the previous level, since the initial evaluate is made
-    //with the empty word, we check that it is not yet empty.
-    if( pPath->size() > 0 ) {
-        pPath->pop_back();
-    }
-}
-
-Void GridTreePaving::adjoin_over_approximation( const ExactBoxType& theBoxType, const Nat numSubdivInDim ) {
-    // FIXME: This adjoins an outer approximation; change to ensure only overlapping cells are adjoined
-    for(DimensionType i=0; i!=theBoxType.dimension(); ++i) {
-        if(theBoxType[i].lower_bound()>=theBoxType[i].upper_bound()) {
-            ARIADNE_THROW(std::runtime_error,"GridTreeSet::adjoin_over_approximation(ExactBoxType,Nat)","ExactBoxType "<<theBoxType<<" has empty interior.");
-        }
-    }
-    this->adjoin_outer_approximation(theBoxType,numSubdivInDim);
-}
-
-Void GridTreePaving::adjoin_outer_approximation( const UpperBoxType& theBoxType, const Nat numSubdivInDim ) {
-    ExactBoxSetType theBoxSet=cast_exact_box(theBoxType);
-    EffectiveEuclideanCompactSetInterface const& theSet=theBoxSet;
-    this->adjoin_outer_approximation(theSet,numSubdivInDim);
-}
-
-Void GridTreePaving::adjoin_outer_approximation( const EffectiveEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
-    Grid theGrid( this->root_cell().grid() );
-    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
-
-    //1. Compute the smallest GridCell (corresponding to the primary cell)
-    //   that encloses the theSet (after it is mapped onto theGrid).
-    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theSet.bounding_box(), theGrid );
-    //Compute the extent of the primary cell for the outer approximation stepping up by the number of dimensions
-    const Nat outer_approx_primary_cell_extent = extent + theGrid.dimension();
-
-    //2. Align this paving and paving enclosing the provided set
-    Bool has_stopped = false;
-    BinaryTreeNode* pBinaryTreeNode = align_with_cell( outer_approx_primary_cell_extent, true, false, has_stopped );
-
-    //If the outer aproximation of the bounding box of the provided set is enclosed
-    //in an enabled cell of this paving, then there is nothing to be done. The latter
-    //is because adjoining the outer approx of the set will not change this paving.
-    if( ! has_stopped ){
-        //Compute the depth to which we must mince the outer approximation of the adjoining set.
-        //This depth is relative to the root of the constructed paving, which has been alligned
-        //with the binary tree node pBinaryTreeNode.
-        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, outer_approx_primary_cell_extent, 0 );
-
-        //Adjoin the outer approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
-        _adjoin_outer_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, outer_approx_primary_cell_extent,
-                                     max_mince_tree_depth, theSet, pEmptyPath );
-
-        delete pEmptyPath;
-    }
-}
-
-Void GridTreePaving::adjoin_outer_approximation( const ValidatedEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
-    Grid theGrid( this->root_cell().grid() );
-    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
-
-    //1. Compute the smallest GridCell (corresponding to the primary cell)
-    //   that encloses the theSet (after it is mapped onto theGrid).
-    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theSet.bounding_box(), theGrid );
-    //Compute the extent of the primary cell for the outer approximation stepping up by the number of dimensions
-    const Nat outer_approx_primary_cell_extent = extent + theGrid.dimension();
-
-    //2. Align this paving and paving enclosing the provided set
-    Bool has_stopped = false;
-    BinaryTreeNode* pBinaryTreeNode = align_with_cell( outer_approx_primary_cell_extent, true, false, has_stopped );
-
-    //If the outer aproximation of the bounding box of the provided set is enclosed
-    //in an enabled cell of this paving, then there is nothing to be done. The latter
-    //is because adjoining the outer approx of the set will not change this paving.
-    if( ! has_stopped ){
-        //Compute the depth to which we must mince the outer approximation of the adjoining set.
-        //This depth is relative to the root of the constructed paving, which has been alligned
-        //with the binary tree node pBinaryTreeNode.
-        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, outer_approx_primary_cell_extent, 0 );
-
-        //Adjoin the outer approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
-        _adjoin_outer_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, outer_approx_primary_cell_extent,
-                                     max_mince_tree_depth, theSet, pEmptyPath );
-
-        delete pEmptyPath;
-    }
-}
-
-// TODO:Think of another representation in terms of covers but not pavings, then the implementation
-// will be different, this is why, for now we do not fix these things.
-Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanLocatedSetInterface& theSet, const Nat numSubdivInDim ) {
-    this->adjoin_lower_approximation( theSet, cast_exact_box(theSet.bounding_box()), numSubdivInDim );
-}
-
-Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanOvertSetInterface& theSet, const Nat heightInDim, const Nat numSubdivInDim ) {
-    Grid theGrid( this->root_cell().grid() );
-    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
-
-    //Align this paving and paving at the given extent
-    Bool has_stopped = false;
-    BinaryTreeNode* pBinaryTreeNode = align_with_cell( heightInDim, true, false, has_stopped );
-
-    //If the lower aproximation of the bounding box of the provided set is enclosed
-    //in an enabled cell of this paving, then there is nothing to be done. The latter
-    //is because adjoining the outer approx of the set will not change this paving.
-    if( ! has_stopped ){
-        //Compute the depth to which we must mince the outer approximation of the adjoining set.
-        //This depth is relative to the root of the constructed paving, which has been alligned
-        //with the binary tree node pBinaryTreeNode.
-        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, heightInDim, 0 );
-
-        //Adjoin the outer approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
-        //const EffectiveEuclideanRegularSetInterface* theRegularVersionOfSet = dynamic_cast<const EffectiveEuclideanRegularSetInterface*>(&theSet);
-        const EffectiveEuclideanOpenSetInterface* theOpenVersionOfSet = dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(&theSet);
-        //const EffectiveEuclideanLocatedSetInterface* theLocatedVersionOfSet = dynamic_cast<const EffectiveEuclideanLocatedSetInterface*>(&theSet);
-        const EffectiveEuclideanOvertSetInterface* theOvertVersionOfSet = dynamic_cast<const EffectiveEuclideanOvertSetInterface*>(&theSet);
-        if( theOpenVersionOfSet ) {
-            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOpenVersionOfSet, pEmptyPath );
-        } else {
-            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOvertVersionOfSet, pEmptyPath );
-        }
-        delete pEmptyPath;
-    }
-}
-
-Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanOvertSetInterface& theSet, const ExactBoxType& theBoundingBoxType, const Nat numSubdivInDim ) {
-    Grid theGrid( this->root_cell().grid() );
-    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
-    ARIADNE_ASSERT( theBoundingBoxType.dimension() == this->root_cell().dimension() );
-
-    //Compute the smallest the primary cell that encloses the theSet (after it is mapped onto theGrid).
-    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theBoundingBoxType, theGrid );
-
-    //Adjoin the lower approximation with the bounding cell being the primary cell at the given extent.
-    adjoin_lower_approximation( theSet, extent, numSubdivInDim );
-}
-
-Void GridTreePaving::_adjoin_inner_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
-                                                  const Nat max_mince_tree_depth, const EffectiveEuclideanOpenSetInterface& theSet, BinaryWord * pPath ) {
-    //Compute the cell corresponding to the current node
-    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
-
-    // If the set if closed, then we can use the separated(Box) method to speed-up computation
-    const EffectiveEuclideanClosedSetInterface* theClosedSet = dynamic_cast<const EffectiveEuclideanClosedSetInterface*>(&theSet);
-
-    if( ! pBinaryTreeNode->is_enabled() ) {
-        //If this it is not an enabled leaf node then we can add something to it.
-        if( definitely( theSet.covers( theCurrentCell.box() ) ) ) {
-            //If this node's box is a subset of theSet then it belongs to the inner approximation
-            //Thus we need to make it an enabled leaf and then do the mincing to the maximum depth
-            pBinaryTreeNode->make_leaf( true );
-        } else if ( theClosedSet && !definitely( theClosedSet->separated( theCurrentCell.box() ) ) ) {
-            //If theSet overlaps with the box corresponding to the given node in the original
-            //space, then there might be something to add from the inner approximation of theSet.
-            if( pPath->size() >= max_mince_tree_depth ) {
-                //DO NOTHING: Since it is the maximum depth to which we were allowed to mince
-                //and we know that the node's box only overlaps with theSet but is not it's
-                //subset we have to exclude it from the inner approximation of theSet.
-            } else {
-                //Since we still do not have the finest cells for the outer approximation of theSet, we split
-                pBinaryTreeNode->split();  //NOTE: splitting a non-leaf node does not do any harm
-
-                //Check the left branch
-                pPath->push_back(false);
-                _adjoin_inner_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-                //Check the right branch
-                pPath->push_back(true);
-                _adjoin_inner_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
-            }
-        } else {
-            //DO NOTHING: the node's box is disjoint from theSet and thus it or it's
-            //sub nodes can not be the part of the inner approximation of theSet.
-        }
-    } else {
-        //DO NOTHING: If this is an enabled leaf node we are in, then there is nothing to add to it
-        //TODO: We could mince the node until the depth (max_mince_tree_depth - pPath->size()) but I do
-        //not know if it makes any sence to do this, since this does not change the result.
-    }
-
-    //Return to the previous level, since the initial evaluate is made
-    //with the empty word, we check that it is not yet empty.
-    if( pPath->size() > 0 ) {
-        pPath->pop_back();
-    }
-}
-
-Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const Nat extent, const Nat numSubdivInDim ) {
-    Grid theGrid( this->root_cell().grid() );
-    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
-
-    //Align this paving and paving at the given extent
-    Bool has_stopped = false;
-    BinaryTreeNode* pBinaryTreeNode = align_with_cell( extent, true, false, has_stopped );
-
-    //If the inner aproximation of the bounding box of the provided set is enclosed
-    //in an enabled cell of this paving, then there is nothing to be done. The latter
-    //is because adjoining the inner approx of the set will not change this paving.
-    if( ! has_stopped ){
-        //Compute the depth to which we must mince the inner approximation of the adjoining set.
-        //This depth is relative to the root of the constructed paving, which has been alligned
-        //with the binary tree node pBinaryTreeNode.
-        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, extent, 0 );
-
-        //Adjoin the inner approximation, computing it on the fly.
-        BinaryWord * pEmptyPath = new BinaryWord();
-        _adjoin_inner_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, extent, max_mince_tree_depth, theSet, pEmptyPath );
-        delete pEmptyPath;
-    }
-}
-
-Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const ExactBoxType& theBoundingBoxType, const Nat numSubdivInDim ) {
-    Grid theGrid( this->root_cell().grid() );
-    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
-    ARIADNE_ASSERT( theBoundingBoxType.dimension() == this->root_cell().dimension() );
-
-    //Compute the smallest the primary cell that encloses the theSet (after it is mapped onto theGrid).
-    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theBoundingBoxType, theGrid );
-
-    //Compute the extent of the smallest primary cell that encloses the box
-    //Note that, since we will need to adjoin inner approximation bounded by
-    //the theBoundingBoxType, it is enough to take this cell's extent and not to
-    //go higher. Remember that the inner approximations consists of the cells
-    //that are subsets of the set theSet Adjoin the inner approximation with
-    //the bounding cell being the primary cell at the given extent.
-    adjoin_inner_approximation( theSet, extent, numSubdivInDim );
-}
-
-Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanSetInterface& theSet, const Nat numSubdivInDim ) {
-    EffectiveEuclideanOpenSetInterface const& theOpenSet = theSet;
-    ExactBoxType theBoundingBox = cast_exact_box(theSet.bounding_box());
-    this -> adjoin_inner_approximation(theOpenSet, theBoundingBox, numSubdivInDim);
-}
-
-Void GridTreePaving::adjoin_inner_approximation( const LowerBoxType& theBoxType, const Nat numSubdivInDim ) {
-    ExactBoxSetType theBoxSet=cast_exact_box(theBoxType);
-    this->adjoin_inner_approximation(theBoxSet,theBoxSet,numSubdivInDim);
-}
-
-Void GridTreePaving::restrict_to_lower( const GridTreeSubpaving& theOtherSubPaving ){
-    //The root of the binary tree of the current Paving
-    BinaryTreeNode * pBinaryTreeNode = this->_pRootTreeNode;
-
-    //The primary cell of this paving is higher then the one of the other paving.
-    //1. We locate the path to the primary cell node common with the other paving
-    BinaryWord rootNodePath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), this->root_cell().root_extent(), theOtherSubPaving.root_cell().root_extent() );
-
-    //2. Add the suffix path from the primary cell to the root node of
-    //theOtherSubPaving. This is needed in order to be able to reach this root.
-    rootNodePath.append( theOtherSubPaving.root_cell().word() );
-
-    //3. Restrict this binary tree to the other one assuming the path prefix rootNodePath
-    Nat position = 0;
-    //This will point to the children nodes that do not have chance for being in the restriction
-    BinaryTreeNode * pBranchToDisable = nullptr;
-    //Iterate the path, get to the root cell of theOtherSubPaving
-    while( position < rootNodePath.size() ){
-        if( pBinaryTreeNode->is_leaf() ){
-            //If we are in the leaf node then
-            if( pBinaryTreeNode->is_disabled() ){
-                //if it is disabled, then the intersection with
-                //the other set is empty so we just return
-                return;
-            } else {
-                //If it is an enabled leaf node then, because we still need to go further to reach the root cell of
-                //theOtherSubPaving, we split this node and disable the leaf that does not intersect with the other set
-                pBinaryTreeNode->split();
-            }
-        } else {
-            //If this is not a leaf node then we need to follow the path and disable the child
-            //node that is not on the path, because it will not make it into the intersection
-        }
-        //Follow the path and diable the other branch
-        if( rootNodePath[position] ){
-            pBranchToDisable = pBinaryTreeNode->left_node();
-            pBinaryTreeNode = pBinaryTreeNode->right_node();
-        } else {
-            pBranchToDisable = pBinaryTreeNode->right_node();
-            pBinaryTreeNode = pBinaryTreeNode->left_node();
-        }
-        //Move the unused branch into a disabled leaf node
-        pBranchToDisable->make_leaf(false);
-
-        //Move to the next path element
-        position++;
-    }
-    if( pBinaryTreeNode->is_enabled() ){
-        //If we ended up in a leaf node that is disabled, this meand that it is the only enabled node
-        //in this GridTreeSet. At this point it corresponds to the root node of the theOtherSubPaving
-        //and since we need to do the restriction to that set, we just need to copy it to this node.
-        pBinaryTreeNode->copy_from( theOtherSubPaving.binary_tree() );
-        //Return since there is nothing else we need to do
-        return;
-    } else {
-        if( pBinaryTreeNode->is_disabled() ){
-            //if we are in a disabled leaf node the the result of the
-            //restriction is an empty set and we just return
-            return;
-        } else {
-            //If it is two binary tree we have, then we need to restrict
-            //pBinaryTreeNode to theOtherSubPaving._pRootTreeNode
-            BinaryTreeNode::restrict( pBinaryTreeNode, theOtherSubPaving.binary_tree() );
-        }
-    }
-}
-
-Void GridTreePaving::remove_from_lower( const GridTreeSubpaving& theOtherSubPaving ){
-    //The root of the binary tree of the current Paving
-    BinaryTreeNode * pBinaryTreeNode = this->_pRootTreeNode;
-
-    //The primary cell of this paving is higher then the one of the other paving.
-    //1. We locate the path to the primary cell node common with the other paving
-    BinaryWord rootNodePath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), this->root_cell().root_extent(), theOtherSubPaving.root_cell().root_extent() );
-
-    //2. Add the suffix path from the primary cell to the root node of
-    //theOtherSubPaving. This is needed in order to be able to reach this root.
-    rootNodePath.append( theOtherSubPaving.root_cell().word() );
-
-    //3. Remove theOtherSubPaving from this binary tree assuming the path prefix rootNodePath
-    Nat position = 0;
-    //Iterate the path, get to the root cell of theOtherSubPaving
-    while( position < rootNodePath.size() ){
-        if( pBinaryTreeNode->is_leaf() ){
-            //If we are in the leaf node then
-            if( pBinaryTreeNode->is_disabled() ){
-                //if it is disabled, then we are removing from not-enabled cells
-                //so there is nothing to be done and thus we simply terminate
-                return;
-            } else {
-                //If it is an enabled leaf node then, because we still need to go further
-                //to reach the root cell of theOtherSubPaving, we split this node
-                pBinaryTreeNode->split();
-            }
-        } else {
-            //If this is not a leaf node then we need to follow the path and then do removal
-        }
-        //Follow the path and do the removal, the other branch stays intact
-        pBinaryTreeNode = (rootNodePath[position]) ? pBinaryTreeNode->right_node() : pBinaryTreeNode->left_node();
-
-        //Move to the next path element
-        position++;
-    }
-    if( pBinaryTreeNode->is_disabled() ){
-        //If we are in a disabled leaf node the the result of the
-        //removal does not change this set and so we just return
-        return;
-    } else {
-        //We have two aligned binary trees we have to subtract enabled
-        //nodes of theOtherSubPaving._pRootTreeNode from pBinaryTreeNode
-        BinaryTreeNode::remove( pBinaryTreeNode, theOtherSubPaving.binary_tree() );
-    }
-}
-
-Void GridTreePaving::clear(  ) {
-    // TODO: Pieter: This implementation may not be optimal. Please could you
-    // check this, Ivan.
-    *this=GridTreePaving(this->grid());
-}
-
-
-Void GridTreePaving::restrict( const GridTreeSubpaving& theOtherSubPaving ) {
-    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
-    const Nat otherPavingPCellExtent = theOtherSubPaving.root_cell().root_extent();
-
-    ARIADNE_ASSERT( this->grid() == theOtherSubPaving.grid() );
-
-    //In case theOtherSubPaving has the primary cell that is higher then this one
-    //we extend it, i.e. reroot it to the same extent primary cell.
-    if( thisPavingPCellExtent < otherPavingPCellExtent ){
-        up_to_primary_cell( otherPavingPCellExtent );
-    }
-
-    //Now it is simple to restrict this set to another, since this set's
-    //primary cell is not lower then for the other one
-    restrict_to_lower( theOtherSubPaving );
-}
-
-Void GridTreePaving::remove( const GridCell& theCell ) {
-    ARIADNE_ASSERT( this->grid() == theCell.grid() );
-
-    //If needed, extend the tree of this paving and then find it's the
-    //primary cell common with the primary cell of the provided GridCell
-    //If we encounter a disabled node then we do not move on, since then
-    //there is nothing to remove, otherwise we split the node and go down
-    Bool has_stopped = false;
-    BinaryTreeNode* pCurrentPrimaryCell = align_with_cell( theCell.root_extent(), false, true, has_stopped );
-
-    if( ! has_stopped ) {
-        //Follow theCell.word() path in the tree rooted to pCommonPrimaryCell,
-        //do that until we encounter a leaf node, then stop
-        BinaryWord path = theCell.word();
-        Nat position = 0;
-        for(; position < path.size(); position++ ) {
-            //If we are in a leaf node then
-            if( pCurrentPrimaryCell->is_leaf() ) {
-                break;
-            }
-            pCurrentPrimaryCell = path[position] ? pCurrentPrimaryCell->right_node() : pCurrentPrimaryCell->left_node();
-        }
-
-        //Check if we stopped because it was a leaf node
-        if( pCurrentPrimaryCell->is_leaf() ) {
-            if( pCurrentPrimaryCell->is_enabled() ) {
-                //If the node is a leaf and enabled then continue following the path by splitting nodes
-                for(; position < path.size(); position++ ) {
-                    pCurrentPrimaryCell->split();
-                    pCurrentPrimaryCell = path[position] ? pCurrentPrimaryCell->right_node() : pCurrentPrimaryCell->left_node();
-                }
-                //Disable the sub-tree rooted to the tree node we navigated to
-                pCurrentPrimaryCell->set_disabled();
-            } else {
-                //DO NOTHING: The leaf node turns out to be already off,
-                //so there is nothing to remove from
-            }
-        } else {
-            //We followed the path to the cell, but we are still in some non-leaf node at this
-            //point it does no matter what is below, and we just remove the entire sub-tree.
-            pCurrentPrimaryCell->make_leaf( false );
-        }
-    } else {
-        //DO NOTHING: If we stopped it means that we were in a
-        //disabled node, so there is nothing to remove from
-    }
-}
-
-Void GridTreePaving::remove( const GridTreeSubpaving& theOtherSubPaving ) {
-    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
-    const Nat otherPavingPCellExtent = theOtherSubPaving.root_cell().root_extent();
-
-    ARIADNE_ASSERT( this->grid() == theOtherSubPaving.grid() );
-
-    //In case theOtherSubPaving has the primary cell that is higher then this one
-    //we extend it, i.e. reroot it to the same extent primary cell.
-    if( thisPavingPCellExtent < otherPavingPCellExtent ){
-        up_to_primary_cell( otherPavingPCellExtent );
-    }
-
-    //Now it is simple to remove theOtherSubPaving elements from this set,
-    //since this set's primary cell is not lower then for the other one.
-    remove_from_lower( theOtherSubPaving );
-}
-
-Void GridTreePaving::restrict_to_extent( const Nat theExtent ) {
-    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
-
-    if( thisPavingPCellExtent > theExtent){
-        // ARIADNE_WARN("restricting GridTreeSet of extent " << this->root_cell().root_extent() << " to extent " << theExtent << ".");
-
-        BinaryWord pathToPCell = GridCell::primary_cell_path( this->dimension(), thisPavingPCellExtent, theExtent );
-
-        //Go throught the tree and disable all the leaves that
-        //are not rooted to the primary cell defined by this path
-        BinaryTreeNode * pCurrentNode = _pRootTreeNode;
-        for( SizeType i = 0; i < pathToPCell.size(); i++ ) {
-            if( pCurrentNode->is_leaf() ){
-                if( pCurrentNode->is_enabled() ){
-                    //If we are in an enabled leaf node then we split.
-                    //There are still cells to remove.
-                    pCurrentNode->split();
-                } else {
-                    //If we are in a disabled leaf node then we stop.
-                    //There is nothing to be done, because there are
-                    //no more enabled cells to remove
-                    break;
-                }
-            }
-            //If we are here, then we are in a non-leaf node
-            if( pathToPCell[i] ){
-                //Go to the right, and remove anything on the left
-                pCurrentNode->left_node()->make_leaf(false);
-                pCurrentNode = pCurrentNode->right_node();
-            } else {
-                //Go to the left, and remove anything on the right
-                pCurrentNode->right_node()->make_leaf(false);
-                pCurrentNode = pCurrentNode->left_node();
-            }
-        }
-    }
-}
-
-//************************************FRIENDS OF GridTreeSet*****************************************/
-
-GridTreePaving outer_approximation(const ExactBoxType& theBoxType, const Grid& theGrid, const Nat numSubdivInDim) {
-    ExactBoxSetType theBoxSet=theBoxType;
-    EffectiveEuclideanCompactSetInterface const& theSet=theBoxSet;
-    return outer_approximation(theSet,theGrid,numSubdivInDim);
-}
-
-GridTreePaving outer_approximation(const ExactBoxType& theBoxType, const Nat numSubdivInDim) {
-    return outer_approximation(theBoxType, Grid(theBoxType.dimension()), numSubdivInDim);
-}
-
-GridTreePaving outer_approximation( const EffectiveEuclideanCompactSetInterface& theSet, const Grid& theGrid, const Nat numSubdivInDim ) {
-    GridTreePaving result( theGrid );
-    result.adjoin_outer_approximation( theSet, numSubdivInDim );
-    return result;
-}
-
-GridTreePaving outer_approximation( const EffectiveEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
-    Grid theGrid( theSet.dimension() );
-    return outer_approximation( theSet, theGrid, numSubdivInDim );
-}
-
-GridTreePaving outer_approximation( const ValidatedEuclideanCompactSetInterface& theSet, const Grid& theGrid, const Nat numSubdivInDim ) {
-    GridTreePaving result( theGrid );
-    result.adjoin_outer_approximation( theSet, numSubdivInDim );
-    return result;
-}
-
-GridTreePaving outer_approximation( const ValidatedEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
-    Grid theGrid( theSet.dimension() );
-    return outer_approximation( theSet, theGrid, numSubdivInDim );
-}
-
-GridTreePaving inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const Grid& theGrid, const Nat extent, const Nat numSubdivInDim ) {
-    GridTreePaving result( theGrid );
-    result.adjoin_inner_approximation( theSet, extent, numSubdivInDim );
-    return result;
-}
-
-GridTreePaving inner_approximation( const EffectiveEuclideanSetInterface& theSet, const Grid& theGrid, const Nat numSubdivInDim ) {
-    GridTreePaving result( theGrid );
-    result.adjoin_inner_approximation( theSet, numSubdivInDim );
-    return result;
-}
-
-GridTreePaving inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const Grid& theGrid, const ExactBoxType& bounding_box, const Nat numSubdivInDim ) {
-    GridTreePaving result( theGrid );
-    result.adjoin_inner_approximation( theSet, bounding_box, numSubdivInDim );
-    return result;
-}
-
-GridTreePaving join( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
-
-    //Compute the highest primary cell
-    const Nat extentSet1 = theSet1.root_cell().root_extent();
-    const Nat extentSet2 = theSet2.root_cell().root_extent();
-    const Nat maxPCExtent = ( extentSet1 <  extentSet2 ) ? extentSet2 : extentSet1;
-
-    //Create the resulting GridTreeSet
-    GridTreePaving resultSet( theSet1.grid(), maxPCExtent, new BinaryTreeNode() );
-
-    //Adjoin the sets
-    resultSet.adjoin( theSet1 );
-    resultSet.adjoin( theSet2 );
-
-    //Return the result
-    return resultSet;
-}
-
-GridTreePaving intersection( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
-
-    //Compute the highest primary cell
-    const Nat extentSet1 = theSet1.root_cell().root_extent();
-    const Nat extentSet2 = theSet2.root_cell().root_extent();
-    const Nat maxPCExtent = ( extentSet1 <  extentSet2 ) ? extentSet2 : extentSet1;
-
-    //Create the resulting GridTreeSet
-    GridTreePaving resultSet( theSet1.grid(), maxPCExtent, new BinaryTreeNode() );
-
-    //Adjoin the first set
-    resultSet.adjoin( theSet1 );
-    //Intersect the result with the second set
-    resultSet.restrict( theSet2 );
-
-    //Return the result
-    return resultSet;
-}
-
-GridTreePaving difference( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
-    //Test that the Grids are equal
-    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
-
-    //Compute the highest primary cell
-    const Nat extentSet1 = theSet1.root_cell().root_extent();
-    const Nat extentSet2 = theSet2.root_cell().root_extent();
-    const Nat maxPCExtent = ( extentSet1 <  extentSet2 ) ? extentSet2 : extentSet1;
-
-    //Create the resulting GridTreeSet
-    GridTreePaving resultSet( theSet1.grid(), maxPCExtent, new BinaryTreeNode() );
-
-    //Adjoin the first set
-    resultSet.adjoin( theSet1 );
-    //Remove the second set from the result set
-    resultSet.remove( theSet2 );
-
-    //Return the result
-    return resultSet;
-}
-
-
-
-struct LatticeCell {
-    DimensionType _dim;
-    Nat _root;
-    BinaryWord _word;
-};
-
-
-
-BinaryWord product_word(GridCell const& gc1, GridCell const& gc2) {
-    Nat extent = std::max(gc1.root_extent(),gc2.root_extent());
-    Int h1=static_cast<Int>(gc1.root_extent());
-    Int h2=static_cast<Int>(gc2.root_extent());
-    DimensionType n1=gc1.dimension();
-    DimensionType n2=gc2.dimension();
-    Int r1=gc1.depth()/static_cast<Int>(gc1.dimension()); // refinements
-    BinaryWord const& w1=gc1.word();
-    BinaryWord const& w2=gc2.word();
-    BinaryWord word;
-    SizeType i1=0u, i2=0u;
-    Int level=-static_cast<Int>(extent);
-    while (level < r1) {
-        if (-level>h1) {
-            for(DimensionType j=0; j!=n1; ++j) { word.append(level%2); }
-        } else {
-            for(DimensionType j=0; j!=n1; ++j) { word.append(w1[i1]); ++i1; }
-        }
-        if (-level>h2) {
-            for(DimensionType j=0; j!=n2; ++j) { word.append(level%2); }
-        } else {
-            for(DimensionType j=0; j!=n2; ++j) { word.append(w2[i2]); ++i2; }
-        }
-        ++level;
-    }
-    return word;
-}
-
-// The product of two cells of the same depth
-GridCell product(GridCell const& gc1, GridCell const& gc2) {
-    ARIADNE_ASSERT_MSG(gc1.depth()*static_cast<Int>(gc2.dimension())==gc2.depth()*static_cast<Int>(gc1.dimension()),"Computing product of grid cells "<<gc1<<" and "<<gc2<<" which do not have the same depth in each dimension.");
-    GridCell r(join(gc1.grid(),gc2.grid()),std::max(gc1.root_extent(),gc2.root_extent()),product_word(gc1,gc2));
-//    std::cerr<<"r="<<r<<"\nr.box()="<<r.box()<<", product(bx1,bx2)="<<product(gc1.box(),gc2.box())<<"\n";
-//    std::cerr<<"r-codes="<<BinaryCode(tree_height,word).split(n1+n2)<<"\n";
-//    std::cerr<<"gc1-codes="<<BinaryCode(gc1.tree_height(),gc1.word()).split(n1)<<"\n";
-//    std::cerr<<"gc2-codes="<<BinaryCode(gc2.tree_height(),gc2.word()).split(n2)<<"\n";
-    ARIADNE_ASSERT(r.box()==product(gc1.box(),gc2.box()));
-    return r;
-}
-
-// The product of two cells of the same depth
-GridTreePaving product(GridTreeSubpaving const& theSet1, GridTreeSubpaving const& theSet2) {
-    GridTreePaving result(join(theSet1.grid(),theSet2.grid()));
-    for (GridCell const& theCell1 : theSet1) {
-        for (GridCell const& theCell2 : theSet2) {
-            result._adjoin_cell(std::max(theCell1.root_extent(),theCell2.root_extent()),product_word(theCell1,theCell2));
-        }
-    }
-    return result;
-}
-
-// The product of two cells of the same depth
-GridTreePaving product(GridCell const& theCell1, GridTreeSubpaving const& theSet2) {
-    GridTreePaving result(join(theCell1.grid(),theSet2.grid()));
-    for (GridCell const& theCell2 : theSet2) {
-        result.adjoin(product(theCell1,theCell2));
-    }
-    return result;
-}
-
-Void draw(CanvasInterface& theGraphic, const Projection2d& theProjection, const GridCell& theGridCell) {
-    theGridCell.box().draw(theGraphic,theProjection);
-}
-
-Void draw(CanvasInterface& theGraphic, const Projection2d& theProjection, const GridTreePaving& theGridTreeSet) {
-    for(GridTreePaving::ConstIterator iter=theGridTreeSet.begin(); iter!=theGridTreeSet.end(); ++iter) {
-        iter->box().draw(theGraphic,theProjection);
-    }
-}
-
-Void draw(CanvasInterface& theGraphic, const Projection2d& theProjection, const EffectiveEuclideanCompactSetInterface& theSet) {
-    static const Int DRAWING_DEPTH=16;
-    draw(theGraphic,theProjection,outer_approximation(theSet,Grid(theSet.dimension()),DRAWING_DEPTH));
-}
-
-OutputStream& operator<<(OutputStream& os, const GridTreePaving& theGridTreeSet) {
-    const GridTreeSubpaving& theGridTreeSubset = theGridTreeSet;
-    return os << "GridTreeSet( " << theGridTreeSubset << " )";
-}
-
-template<class X> Vector<X> project(Vector<X> const& v, const Array<SizeType>& prj) {
-    return Vector<X>(prj.size(),[&](SizeType i){return v[prj[i]];});
-}
-
-Grid project(Grid const& grd, Array<SizeType> const& prj) {
-    return Grid(project(grd.origin(),prj),project(grd.lengths(),prj));
-}
-
-GridTreePaving image(const GridTreePaving& theSet, const Projection& theProjection) {
-    Grid resultGrid=project(theSet.grid(),theProjection.indices());
-    GridTreePaving theResultSet(resultGrid);
-    for (GridCell const& theCell : theSet) {
-        BinaryWord const& theWord = theCell.word();
-        assert(theWord.size() % theSet.dimension() == 0);
-        BinaryWord resultWord;
-        SizeType n=theWord.size()/theSet.dimension()*theResultSet.dimension();
-        resultWord.reserve(n);
-        for (SizeType i=0; i!=n; ++i) {
-            resultWord.append(theWord[(i/theResultSet.dimension())*theSet.dimension()+theProjection[i%theResultSet.dimension()]]);
-        }
-        theResultSet._adjoin_cell(theCell.root_extent(),resultWord);
-    }
-    theResultSet.recombine();
-    return theResultSet;
-}
-
-
-GridTreePaving outer_skew_product(GridTreePaving const& gtp1, Grid const& g2, ValidatedVectorMultivariateFunction const& f) {
-    Grid g1=gtp1.grid();
-    Nat tree_depth = gtp1.tree_depth();
-    Nat fineness=tree_depth/g1.dimension()-gtp1.root_cell().root_extent();
-
-    const_cast<GridTreePaving&>(gtp1).mince(fineness);
-    GridTreePaving gtp2(g2);
-    GridTreePaving r(join(g1,g2));
-
-    for (GridCell gc1 : gtp1) {
-        ValidatedConstrainedImageSet s2(gc1.box(),f);
-        gtp2.adjoin_outer_approximation(s2,fineness);
-        gtp2.mince(fineness);
-        for (GridCell gc2 : gtp2) {
-            r.adjoin(product(gc1,gc2));
-        }
-        gtp2.clear();
-    }
-    r.recombine();
-    return r;
-}
-
-
-} // namespace Ariadne
-
+/***************************************************************************
+ *            geometry/grid_paving.cpp
+ *
+ *  Copyright  2008-20  Ivan S. Zapreev, Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+#include "function/functional.hpp"
+#include "config.hpp"
+
+#include <iostream>
+#include <iomanip>
+
+#include "utility/macros.hpp"
+#include "utility/exceptions.hpp"
+#include "utility/stlio.hpp"
+#include "function/projection.hpp"
+#include "geometry/function_set.hpp"
+#include "geometry/list_set.hpp"
+#include "geometry/grid_paving.hpp"
+#include "geometry/binary_tree.hpp"
+
+#include "geometry/set_interface.hpp"
+
+
+namespace Ariadne {
+
+Bool subset( const GridCell& theCellOne, const GridCell& theCellTwo,
+             BinaryWord * pPathPrefixOne, BinaryWord * pPathPrefixTwo, Nat * pPrimaryCellExtent);
+
+
+//****************************************GridAbstractCell*******************************************/
+
+LatticeBoxType GridAbstractCell::primary_cell_lattice_box( const Nat theExtent, const dimension_type dimensions ) {
+    Int leftBottomCorner = 0, rightTopCorner = 1;
+    //The zero level coordinates are known, so we need to iterate only for higher level primary cells
+    for(Nat i = 1; i <= theExtent; i++){
+        primary_cell_at_extent(i, leftBottomCorner, rightTopCorner);
+    }
+    // 1.2 Constructing and return the box defining the primary cell (relative to the grid).
+
+    return Vector< ExactIntervalType >( dimensions, ExactIntervalType( leftBottomCorner, rightTopCorner ) );
+}
+
+Nat GridAbstractCell::smallest_enclosing_primary_cell_extent( const LatticeBoxType& theLatticeBoxType ) {
+    const dimension_type dimensions = theLatticeBoxType.size();
+    Int leftBottomCorner = 0, rightTopCorner = 1;
+    Nat extent = 0;
+    //The zero level coordinates are known, so we need to iterate only for higher level primary cells
+    do{
+        //Check if the given box is a subset of a primary cell
+        Box< ExactIntervalType > primaryCellBoxType( dimensions, ExactIntervalType( leftBottomCorner, rightTopCorner ) );
+        if(  inside(theLatticeBoxType, primaryCellBoxType ) ) {
+            //If yes then we are done
+            break;
+        }
+        //Otherwise increase the extent and recompute the new borders
+        primary_cell_at_extent( ++extent, leftBottomCorner, rightTopCorner);
+    }while( true );
+
+    return extent;
+}
+
+Nat GridAbstractCell::smallest_enclosing_primary_cell_extent( const UpperBoxType& theBoxType, const Grid& theGrid) {
+    Vector<ExactIntervalType> theLatticeBoxType( theBoxType.size() );
+    //Convert the box to theGrid coordinates
+    for( SizeType i = 0; i != theBoxType.size(); ++i ) {
+        theLatticeBoxType[i] = cast_exact_interval( ( theBoxType[i] - cast_exact(theGrid.origin()[i])) / cast_exact(theGrid.lengths()[i]) );
+    }
+    //Compute and return the smallest primary cell, enclosing this box on the grid
+    return smallest_enclosing_primary_cell_extent( theLatticeBoxType );
+}
+
+ExactBoxType GridAbstractCell::lattice_box_to_space(const LatticeBoxType & theLatticeBoxType, const Grid& theGrid ){
+    const DimensionType dimensions = theGrid.dimension();
+    ExactBoxType theTmpBoxType( dimensions );
+
+    Vector<FloatDP> theGridOrigin( theGrid.origin() );
+    Vector<FloatDP> theGridLengths( theGrid.lengths() );
+
+    for(DimensionType current_dimension = 0; current_dimension < dimensions; current_dimension ++){
+        const FloatDP theDimLength = theGridLengths[current_dimension];
+        const FloatDP theDimOrigin = theGridOrigin[current_dimension];
+        //Recompute the new dimension coordinates, detaching them from the grid
+        //Compute lower and upper bounds separately, and then set the box lower
+        //and upper values simultaneously to prevent lower temporarily higher than upper.
+        FloatDP lower = add(approx, theDimOrigin, mul(approx, theDimLength, theLatticeBoxType[current_dimension].lower_bound() ) );
+        FloatDP upper = add(approx, theDimOrigin, mul(approx, theDimLength, theLatticeBoxType[current_dimension].upper_bound() ) );
+        theTmpBoxType[current_dimension].set_bounds(cast_exact(lower),cast_exact(upper));
+    }
+
+    return theTmpBoxType;
+}
+
+BinaryWord GridAbstractCell::primary_cell_path( const DimensionType dimensions, const Nat topPCellExtent, const Nat bottomPCellExtent) {
+    BinaryWord theBinaryPath;
+
+    //The path from one primary cell to another consists of alternating subsequences
+    //of length \a dimensions. These subsequences consist either of ones or zeroes.
+    //Odd primary cell extent means that the first subsequence will consist of all
+    //ones. Even primary cell extent indicates the the first subsequence will consis
+    //of all zeroes. This is due to the way we do the space subdivisions.
+    if( topPCellExtent > bottomPCellExtent ){
+
+        for( Nat i = topPCellExtent; i > bottomPCellExtent; i-- ){
+            Bool odd_extent = (i % 2) != 0;
+            for( Nat j = 0; j < dimensions; j++ ){
+                theBinaryPath.push_back( odd_extent );
+            }
+        }
+    }
+
+    return theBinaryPath;
+}
+
+//TODO: Perhaps we can make it more efficient by reducing the extent of the words till
+//the minimal primary cell extent and then comparing them by extent and binary words
+Bool GridAbstractCell::compare_abstract_grid_cells(const GridAbstractCell * pCellLeft, const GridAbstractCell &cellRight, const Nat comparator ) {
+    ARIADNE_ASSERT( pCellLeft->_theGrid == cellRight._theGrid );
+    const BinaryWord * pThisWord, * pOtherWord;
+    //This is the temporary word to be used if extents are not equal
+    BinaryWord rootNodePath;
+
+    if( pCellLeft->_theExtent == cellRight._theExtent ) {
+        //if the primary cells are of the same extent, then we just compare the original binary words.
+        pThisWord = & (pCellLeft->_theWord);
+        pOtherWord = & (cellRight._theWord);
+    } else {
+        //Otherwise we have to re-root the cell with the lowest primary cell
+        //to the highest primary cell and then compare the words again,
+        if( pCellLeft->_theExtent > cellRight._theExtent ){
+            rootNodePath = primary_cell_path( pCellLeft->_theGrid.dimension() , pCellLeft->_theExtent, cellRight._theExtent );
+            rootNodePath.append( cellRight._theWord );
+            pThisWord = & (pCellLeft->_theWord);
+            pOtherWord = & (rootNodePath);
+        } else {
+            rootNodePath = primary_cell_path( pCellLeft->_theGrid.dimension() , cellRight._theExtent, pCellLeft->_theExtent );
+            rootNodePath.append( pCellLeft->_theWord );
+            pThisWord = & (rootNodePath);
+            pOtherWord = & (cellRight._theWord);
+        }
+    }
+    switch( comparator ){
+        case COMPARE_EQUAL : return (*pThisWord) == (*pOtherWord);
+        case COMPARE_LESS : return (*pThisWord) < (*pOtherWord);
+        default:
+            throw InvalidInput("The method's comparator argument should be either GridAbstractCell::COMPARE_EQUAL or GridAbstractCell::COMPARE_LESS.");
+    }
+}
+
+//********************************************GridCell***********************************************/
+
+GridCell GridCell::split(Bool isRight) const {
+    BinaryWord theWord = _theWord;
+    theWord.push_back( isRight );
+    return GridCell( _theGrid, _theExtent, theWord);
+}
+
+Pair<GridCell,GridCell> GridCell::split() const {
+    BinaryWord theLeftWord = _theWord;
+    theLeftWord.push_back( false );
+    BinaryWord theRightWord = _theWord;
+    theRightWord.push_back( true );
+    return std::make_pair(GridCell( _theGrid, _theExtent, theLeftWord),GridCell( _theGrid, _theExtent, theRightWord));
+}
+
+GridCell GridCell::smallest_enclosing_primary_cell( const UpperBoxType& theBoxType, const Grid& theGrid) {
+    //Create the GridCell, corresponding to the smallest primary cell, enclosing this box
+    return GridCell( theGrid, smallest_enclosing_primary_cell_extent(theBoxType, theGrid), BinaryWord() );
+}
+
+class BinaryCode {
+    Nat _height;
+    BinaryWord _word;
+  public:
+    BinaryCode(Nat tree_height, BinaryWord word) : _height(tree_height), _word(word) { } //assert(word.size()>=height); }
+    bool operator[](Int i) { return _word[static_cast<Nat>(i+static_cast<Int>(_height))]; }
+    friend OutputStream& operator<<(OutputStream& os, BinaryCode const& bc) {
+        for (SizeType i=0; i!=bc._word.size(); ++i) {
+            if (i==bc._height) { os << '.'; } os << (short)bc._word[i];
+        }
+        return os;
+    }
+    Array<BinaryCode> split(DimensionType dim) {
+        assert(_height % dim==0);
+        Array<BinaryCode> codes(dim, BinaryCode(_height/dim,BinaryWord()));
+        DimensionType k=0;
+        for (SizeType i=0; i!=_word.size(); ++i) {
+            codes[k]._word.append(this->_word[i]);
+            k=(k+1) % dim;
+        }
+        return codes;
+    }
+};
+
+//Computes the box corresponding the the cell defined by the primary cell and the binary word.
+//The resulting box is not relaterd to the original space, but is a lattice box.
+// 1. Compute the primary cell located the the extent \a theExtent above the zero level,
+// 2. Compute the cell defined by the path \a theWord (from the primary cell).
+LatticeBoxType GridCell::compute_lattice_box( const DimensionType dimensions, const Nat theExtent, const BinaryWord& theWord ) {
+    LatticeBoxType theResultLatticeBoxType( primary_cell_lattice_box( theExtent , dimensions ) );
+
+    //2. Compute the cell on some grid, corresponding to the binary path from the primary cell.
+    SizeType current_dimension = 0;
+    for(SizeType i = 0; i < theWord.size(); i++){
+        //We move through the dimensions in a linear fasshion
+        current_dimension = i % dimensions;
+        //Compute the middle point of the box's projection onto
+        //the dimension \a current_dimension (relative to the grid)
+        FloatDP middlePointInCurrDim = theResultLatticeBoxType[current_dimension].midpoint();
+        if( theWord[i] ){
+            //Choose the right half
+            theResultLatticeBoxType[current_dimension].set_lower_bound( cast_exact(middlePointInCurrDim) );
+        } else {
+            //Choose the left half
+            theResultLatticeBoxType[current_dimension].set_upper_bound( cast_exact(middlePointInCurrDim) );
+        }
+    }
+    return theResultLatticeBoxType;
+}
+
+GridCell raise_to_level(GridCell gc, Nat level) {
+    assert(gc.root_extent()<=level);
+    DimensionType n=gc.dimension();
+    BinaryWord w;
+    for (SizeType l=level; l!=gc.root_extent(); --l) {
+        for (DimensionType j=0; j!=n; ++j) {
+            w.append(l%2);
+        }
+    }
+    w.append(gc.word());
+    return GridCell(gc.grid(),level,w);
+}
+
+
+
+//This method appends \a dimension() zeroes to the binary word defining this cell
+//and return a GridOpenCell created with the given grid, primany cell extent and
+//the newly created word for the low-left cell of the open cell
+GridOpenCell GridCell::interior() const {
+    BinaryWord theOpenCellWord = _theWord;
+    for( SizeType i = 0; i < _theGrid.dimension(); i++) {
+        theOpenCellWord.push_back(false);
+    }
+    //The open cell will be defined by the given new word, i.e. the path to the
+    //left-bottom sub-quadrant cell but the box and the rest will be the same
+    return GridOpenCell( _theGrid, _theExtent, theOpenCellWord, _theBoxType );
+}
+
+//NOTE: The cell defined byt the method's arguments is called the base cell.
+//NOTE: Here we work with the lattice boxes that are in the grid
+GridCell GridCell::neighboringCell( const Grid& theGrid, const Nat theExtent, const BinaryWord& theWord, const DimensionType dim ) {
+    const DimensionType dimensions = theGrid.dimension();
+    //1. Extend the base cell in the given dimension (dim) by it's half width. This way
+    //   we are sure that we get a box that overlaps with the required neighboring cell.
+    //NOTE: This box is in the original space, but not on the lattice
+    Box<ExactIntervalType> baseCellBoxInLattice =  GridCell::compute_lattice_box( dimensions, theExtent, theWord );
+    const FloatDP upperBorderOverlapping = add(approx, baseCellBoxInLattice[dim].upper_bound(), hlf( baseCellBoxInLattice[dim].width().value_raw() ) );
+
+    //2. Now check if the neighboring cell can be rooted to the given primary cell. For that
+    //   we simply use the box computed in 1. and get the primary cell that encloses it.
+    //NOTE: In fact, we only need to take about the upper border, because the lower border does not change.
+    Int leftBottomCorner = 0, rightTopCorner = 1; Nat extent = 0;
+    do{
+        if( upperBorderOverlapping <= rightTopCorner ) {
+            //As soon as we fall into the primary cell we are done
+            break;
+        }
+        //Otherwise increase the extent and recompute the new borders
+        primary_cell_at_extent( ++extent, leftBottomCorner, rightTopCorner);
+    } while(true);
+
+    //3. If it can not then we take the lowest required primary cell to root this cell to and
+    //   to re-route the given base cell of GridOpenCell to that one.
+    Nat theBaseCellExtent = theExtent;
+    BinaryWord theBaseCellWord = theWord;
+    if( extent > theBaseCellExtent ) {
+        //If we need a higher primary cell then extend the extent and the word for the case cell
+        theBaseCellWord = primary_cell_path( dimensions, extent, theBaseCellExtent );
+        theBaseCellWord.append( theWord );
+        theBaseCellExtent = extent;
+    }
+
+    //4. We need to start from the end of the new (extended) word representing the base cell. Then
+    //   we go backwards and look for the smallest cell such that the upper border computed in 1.
+    //   is less than the cell's box upper border (in the given dimension). This is indicated by incountering
+    //   the first zero in the path to the base cell in dimension dim from the end of the path
+    SizeType position = theBaseCellWord.size() - 1;
+    while(true) {
+        //Only consider the dimension that we need and look for the first opotrunity to invert the path suffix.
+        if( ( position % dimensions == dim ) && !theBaseCellWord[position] ) {
+            break;
+        }
+        if (position == 0)
+            break;
+        position--;
+    }
+
+    //5. When this entry in the word is found from that point on we have to inverse the path in such
+    //   a way that every component in the dimension from this point till the end of the word is
+    //   inverted. This will provide us with the path to the neighborind cell in the given dimension
+    for(SizeType index = position; index < theBaseCellWord.size(); index++){
+        if( index % dimensions == dim ) {
+            //If this element of the path corresponds to the needed dimension then we need to invert it
+            theBaseCellWord[index] = !theBaseCellWord[index];
+        }
+    }
+
+    return GridCell( theGrid, theBaseCellExtent, theBaseCellWord );
+}
+
+DimensionType GridCell::dimension() const {
+    return this->grid().dimension();
+}
+
+//************************************FRIENDS OF GridCell*****************************************/
+
+Bool subset(const GridCell& theCellOne, const GridCell& theCellTwo, BinaryWord * pPathPrefixOne, BinaryWord * pPathPrefixTwo, Nat *pPrimaryCellExtent ) {
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theCellOne.grid() == theCellTwo.grid() );
+
+    //Test that the binary words are empty, otherwise the results of computations are undefined
+    Bool isDefault = false;
+    if( ( pPathPrefixOne == nullptr ) && ( pPathPrefixTwo == nullptr ) ) {
+        //If both parameters are null, then the user does not
+        //need this data, so we allocate tepmorary objects
+        pPathPrefixOne = new BinaryWord();
+        pPathPrefixTwo = new BinaryWord();
+        isDefault = true;
+    } else {
+        if( ( pPathPrefixOne == nullptr ) || ( pPathPrefixTwo == nullptr ) ) {
+            //TODO: Find some better way to notify the user that
+            //only one of the required pointers is not nullptr.
+            ARIADNE_ASSERT( false );
+        } else {
+            //DO NOTHING: Both parameters are not nullptr, so it
+            //is user data and isDefault should stay false.
+        }
+    }
+
+    //Check if theCellOne is a subset of theCellTwo:
+
+    //01 Align the cell's primary cells by finding path prefixes
+    Nat primary_cell_extent;
+    if( theCellOne.root_extent() < theCellTwo.root_extent() ) {
+        primary_cell_extent = theCellTwo.root_extent();
+        pPathPrefixOne->append( GridCell::primary_cell_path( theCellOne.grid().dimension(), theCellTwo.root_extent(), theCellOne.root_extent() ) );
+    } else {
+        primary_cell_extent = theCellOne.root_extent();
+        if( theCellOne.root_extent() > theCellTwo.root_extent() ){
+            pPathPrefixTwo->append( GridCell::primary_cell_path( theCellOne.grid().dimension(), theCellOne.root_extent(), theCellTwo.root_extent() ) );
+        } else {
+            //DO NOTHING: The cells are rooted to the same primary cell
+        }
+    }
+    if( pPrimaryCellExtent != nullptr ){
+        *pPrimaryCellExtent = primary_cell_extent;
+    }
+
+    //02 Add the rest of the paths to the path prefixes to get the complete paths
+    pPathPrefixOne->append( theCellOne.word() );
+    pPathPrefixTwo->append( theCellTwo.word() );
+
+    //03 theCellOne is a subset of theCellTwo if pathPrefixTwo is a prefix of pathPrefixOne
+    Bool result = pPathPrefixTwo->is_prefix( *pPathPrefixOne );
+
+    //04 If working with default parameters, then release memory
+    if( isDefault ) {
+        delete pPathPrefixOne;
+        delete pPathPrefixTwo;
+    }
+
+    return result;
+}
+
+OutputStream& operator<<(OutputStream& os, const GridCell& gridPavingCell){
+    //Write the grid data to the string stream
+    return os << "GridCell( " << gridPavingCell.grid() <<
+        ", Primary cell extent: " << gridPavingCell.root_extent() <<
+        ", Path from the root: " << gridPavingCell.word() <<
+        ", ExactBoxType: " << gridPavingCell.box() << " )";
+}
+
+
+//********************************************GridOpenCell******************************************/
+
+//NOTE: In this method first works with the boxes on the lattice, to make
+//      computation exact, and then maps them to the original space.
+ExactBoxType GridOpenCell::compute_box(const Grid& theGrid, const Nat theExtent, const BinaryWord& theWord) {
+    Box<ExactIntervalType> baseCellBoxInLattice =  GridCell::compute_lattice_box( theGrid.dimension(), theExtent, theWord );
+    ExactBoxType openCellBoxInLattice( theGrid.dimension() );
+
+    //Go through all the dimensions, and double the box size in the positive axis direction.
+    for( DimensionType dim = 0; dim < theGrid.dimension(); dim++){
+        ExactIntervalType openCellBoxInLatticeDimIntervalType;
+        ExactIntervalType baseCellBoxInLatticeDimIntervalType = baseCellBoxInLattice[dim];
+        FloatDP lower = baseCellBoxInLatticeDimIntervalType.lower_bound();
+        FloatDP upper = add( near, baseCellBoxInLatticeDimIntervalType.upper_bound(),
+                             sub( near, baseCellBoxInLatticeDimIntervalType.upper_bound(),
+                                        baseCellBoxInLatticeDimIntervalType.lower_bound() ) );
+        openCellBoxInLatticeDimIntervalType.set_bounds(cast_exact(lower),cast_exact(upper));
+
+        openCellBoxInLattice[dim] = openCellBoxInLatticeDimIntervalType;
+    }
+
+    return lattice_box_to_space( openCellBoxInLattice, theGrid );
+}
+
+GridOpenCell GridOpenCell::split(TernaryChild child) const {
+    BinaryWord theNewBaseCellPath = _theWord;
+    Nat theNewPrimaryCellExtent;
+    if( child == TernaryChild::MIDDLE ) {
+        //Return the middle open cell (child == TernaryChild::MIDDLE)
+        theNewBaseCellPath.push_back( true );
+        theNewPrimaryCellExtent = _theExtent;
+    } else {
+        if( child == TernaryChild::RIGHT ) {
+            //Return the right-most open cell (child == TernaryChild::RIGHT)
+            //1. First determine in which dimention we are going to split
+            //NOTE: We use theNewBaseCellPath.size() but not theNewBaseCellPath.size()-1 because
+            //we want to determine the dimension in which will be the next split, but not the
+            //dimension in which we had the last split.
+            const DimensionType dim = theNewBaseCellPath.size() % _theGrid.dimension();
+            //2. Then get the neighboring cell in this dimension
+            GridCell neighboringCell = GridCell::neighboringCell( _theGrid, _theExtent, theNewBaseCellPath, dim );
+            //3. Get the neighboring's cell extent and word, because extent might change
+            theNewBaseCellPath = neighboringCell.word();
+            theNewPrimaryCellExtent = neighboringCell.root_extent();
+            //4. Take the left half of the new base cell
+            theNewBaseCellPath.push_back( false );
+        } else {
+            //Return the left-most open cell (child == TernaryChild::LEFT)
+            theNewBaseCellPath.push_back( false );
+            theNewPrimaryCellExtent = _theExtent;
+        }
+    }
+
+    //Construct the new open cell and return it
+    return GridOpenCell( _theGrid, theNewPrimaryCellExtent, theNewBaseCellPath );
+}
+
+GridOpenCell * GridOpenCell::smallest_open_subcell( const GridOpenCell &theOpenCell, const ExactBoxType & theBoxType ) {
+    GridOpenCell * pSmallestOpenCell = nullptr;
+    //If the box of the givel open cell covers the given box
+    if( definitely( theOpenCell.box().covers( theBoxType ) ) ) {
+        //First check the left sub cell
+        pSmallestOpenCell = smallest_open_subcell( theOpenCell.split( TernaryChild::LEFT ), theBoxType );
+        if( pSmallestOpenCell == nullptr ) {
+            //If the left sub cell does not cover theBoxType then check the middle sub cell
+            pSmallestOpenCell = smallest_open_subcell( theOpenCell.split( TernaryChild::MIDDLE ), theBoxType );
+            if( pSmallestOpenCell == nullptr ) {
+                //If the middle sub cell does not cover the box then check the right subcell
+                pSmallestOpenCell = smallest_open_subcell( theOpenCell.split( TernaryChild::RIGHT ), theBoxType );
+                if( pSmallestOpenCell == nullptr ) {
+                    //If the right sub cell does not cover the box then the open cell
+                    //theOpenCell is the smallest GridOpenCell covering theBoxType.
+                    pSmallestOpenCell = new GridOpenCell( theOpenCell.grid(), theOpenCell.root_extent(),
+                                                          theOpenCell.word(), theOpenCell.box() );
+                }
+            }
+        }
+    }
+
+    //Return the result, is null If the box of theOpenCell does not cover the given box
+    return pSmallestOpenCell;
+}
+
+GridOpenCell GridOpenCell::outer_approximation( const ExactBoxType & theBoxType, const Grid& theGrid ) {
+    //01. First we find the smallest primary GridCell that contain the given ExactBoxType.
+    GridCell thePrimaryCell = GridCell::smallest_enclosing_primary_cell( theBoxType, theGrid );
+
+    //02. Second we start subdividing it to find out the root cell for the smallest open cell containing theBoxType
+    //NOTE: smallest_open_subcell returns nullptr or a pointer to new open cell, but here we are sure that
+    //we can not get nullptr because of the choice of thePrimaryCell, therefore we do the following:
+    GridOpenCell * pOpenCell = GridOpenCell::smallest_open_subcell( thePrimaryCell.interior(), theBoxType );
+    GridOpenCell theOpenCell = (* pOpenCell); delete pOpenCell; //Deallocate the memory, to avoid the memory leaks
+    return theOpenCell;
+}
+
+GridTreePaving GridOpenCell::closure() const {
+    //01. First we compute the extent of the primary cell that encloses the given open cell
+    const Nat newExtent = smallest_enclosing_primary_cell_extent( _theBoxType, _theGrid );
+
+    //02. Re-route (if needed) the base cell to the new primary cell
+    Nat theBaseCellExtent = _theExtent;
+    BinaryWord theBaseCellWord = _theWord;
+    //If we need a higher primary cell then extend the extent and the word for the base cell
+    if( newExtent > theBaseCellExtent ) {
+        theBaseCellWord = primary_cell_path( _theGrid.dimension(), newExtent, theBaseCellExtent );
+        theBaseCellWord.append( _theWord );
+        theBaseCellExtent = newExtent;
+    }
+
+    //03. Allocate the resulting GridTreeSet with the root at the needed extent
+    GridTreePaving theResultSet( _theGrid, theBaseCellExtent, new BinaryTreeNode( false ) );
+
+    //04. The preparations are done, now we need to add the base cell to the
+    //    resulting GridTreeSet and to compute and add the other neighboring cells.
+    BinaryWord tmpWord;
+    neighboring_cells( theResultSet.root_cell().root_extent(), theBaseCellWord, tmpWord, theResultSet );
+
+    return theResultSet;
+}
+
+Void GridOpenCell::neighboring_cells( const Nat theExtent, const BinaryWord& theBaseCellWord,
+                                      BinaryWord& cellPosition, GridTreePaving& theResultSet ) const {
+    if( cellPosition.size() < _theGrid.dimension() ) {
+        //Choose the left direction in the current dimension
+        cellPosition.push_back( false );
+        GridOpenCell::neighboring_cells( theExtent, theBaseCellWord, cellPosition, theResultSet );
+        cellPosition.pop_back( );
+        //Choose the right direction in the current dimension
+        cellPosition.push_back( true );
+        GridOpenCell::neighboring_cells( theExtent, theBaseCellWord, cellPosition, theResultSet );
+        cellPosition.pop_back( );
+    } else {
+        //We have constructed the cell position relative to the base cell
+        //for the case of _theGrid.dimension() dimensional space, now it
+        //is time to compute this cell and add it to theResultSet
+        theResultSet.adjoin( GridOpenCell::neighboring_cell( _theGrid, theExtent, theBaseCellWord, cellPosition ) );
+    }
+}
+
+GridCell GridOpenCell::neighboring_cell( const Grid& theGrid, const Nat theExtent,
+                                         const BinaryWord& theBaseCellWord, BinaryWord& cellPosition ) {
+    const SizeType num_dimensions = theGrid.dimension();
+    //01. Allocate the Array of size _theGrid.dimensions() in which we will store
+    //    the position in the path theBaseCellWord, for each dimension, from which on
+    //    we need to inverse the path to get the proper neighboring cell.
+    Vector<SizeType> invert_position(num_dimensions);
+    const SizeType NO_INVERSE_POSITION = static_cast<SizeType>(theBaseCellWord.size());
+    //Initialize the Array with NO_INVERSE_POSITION to make sure that the inversion positions
+    //for the dimensions that are not set to one in cellPosition will be undefined. Also,
+    //count the required number of iverse dimensions
+    SizeType inverseDimensionsNumericType = 0;
+    for( SizeType i = 0; i < num_dimensions; i++ ) {
+        invert_position[i] = NO_INVERSE_POSITION;
+        inverseDimensionsNumericType = inverseDimensionsNumericType + cellPosition[i];
+    }
+
+    //02. Create the path to the neighboring cell and initialize it with the path to the base cell
+    BinaryWord theNeighborCellWord = theBaseCellWord;
+
+    //03. We need to start from the end of the new (extended) word representing the base cell. Then
+    //    we go backwards and, for each dimension in which we need to move from the base cell, look
+    //    for the first zero in the path. This position, for each dimension, will indicate the path
+    //    suffix which has to be inverted to get the neighboring cell defined by cellPosition
+    SizeType firstInversePosition = NO_INVERSE_POSITION;
+    if( inverseDimensionsNumericType > 0 ) {
+        //If there is a need to do inverses, i.e. we are not adding the base cell itself
+        SizeType foundNumericTypeOfInverses = 0;
+        SizeType position = theNeighborCellWord.size() - 1u;
+        while(true) {
+            //Only consider the dimension that we need and look for the first opotrunity to invert the path suffix.
+            SizeType dimension = position % num_dimensions;
+            //If we need to inverse in this dimension and this is the first found position in
+            //this dimension from which on we should inverse then save the position index.
+            if( cellPosition[ dimension ] && !theNeighborCellWord[ position ] &&
+                ( invert_position[ dimension ] == NO_INVERSE_POSITION ) ) {
+                invert_position[ dimension ] = position;
+                //Since it will typically be the case the the binary word to the base cell will be
+                //longer than the number of dimensions, we also find the first inverse positions.
+                if( position < firstInversePosition ) {
+                    firstInversePosition = position;
+                }
+                //Incremenet the number of fount inverses and check if this is all we need, if yes then break
+                foundNumericTypeOfInverses++;
+                if( foundNumericTypeOfInverses == inverseDimensionsNumericType ) {
+                    break;
+                }
+            }
+            if (position == 0) break;
+            position--;
+        }
+    }
+
+    //04. Since now all the inversion positions are found, we need to go through the path again and
+    //    inverse it in the needed dimesnions starting from (corresponding) the found positions on.
+    //    This will provide us with the path to the neighborind cell in the given dimension
+    for( SizeType index = firstInversePosition; index < theNeighborCellWord.size(); index++ ) {
+        SizeType dimension = index % num_dimensions;
+        if( cellPosition[ dimension ] && ( index >= invert_position[ dimension ] ) ) {
+            theNeighborCellWord[index] = !theNeighborCellWord[index];
+        }
+    }
+
+    return GridCell( theGrid, theExtent, theNeighborCellWord );
+}
+
+Void GridOpenCell::cover_cell_and_borders( const GridCell& theCell, const GridTreePaving& theSet,
+                                  BinaryWord& cellPosition, std::vector<GridOpenCell>& result ) {
+    const SizeType num_dimensions = theCell.grid().dimension();
+    if( cellPosition.size() < num_dimensions ) {
+        //Choose the left direction in the current dimension
+        cellPosition.push_back( false );
+        cover_cell_and_borders( theCell, theSet, cellPosition, result );
+        cellPosition.pop_back( );
+        //Choose the right direction in the current dimension
+        cellPosition.push_back( true );
+        cover_cell_and_borders( theCell, theSet, cellPosition, result );
+        cellPosition.pop_back( );
+    } else {
+        //We have constructed the cell position relative to the base cell
+        //for the case of _theGrid.dimension() dimensional space, now it
+        //is time to compute this cell and add it to result
+        GridCell neighborCell = GridOpenCell::neighboring_cell( theCell.grid(), theCell.root_extent(), theCell.word(), cellPosition );
+        //Check if the found neighboring cell is in theSet
+        if( theSet.binary_tree()->is_enabled( neighborCell.word() ) ) {
+            //So this cell is the enabled neighbor of theCell therefore we need to cover the boundary
+            BinaryWord coverCellBaseWord = theCell.word();
+            //Take the given word theCell.word() and then add the directions from the cellPosition
+            //The latter start from the first axis till the last one, but the path in coverCellBaseWord
+            //currently ends at some other axis so we need to align them when appending cellPosition
+            for( SizeType i = 0; i < num_dimensions ; i++ ) {
+                coverCellBaseWord.push_back( cellPosition[ coverCellBaseWord.size() % num_dimensions ] );
+            }
+            //Add the resulting cover cell
+            result.push_back( GridOpenCell( theCell.grid(), theCell.root_extent(), coverCellBaseWord ) );
+        }
+    }
+}
+
+List<GridOpenCell> GridOpenCell::intersection( const GridOpenCell & theLeftOpenCell, const GridOpenCell & theRightOpenCell ) {
+    List<GridOpenCell> result;
+
+    //01 First check if one open cell is a subset of another open cell or if they overlap
+    if( definitely( theLeftOpenCell.box().covers( theRightOpenCell.box() ) ) ) {
+            //If theRightOpenCell is a subset of theLeftOpenCell
+        result.push_back( theRightOpenCell );
+    } else {
+        if( definitely( theRightOpenCell.box().covers( theLeftOpenCell.box() ) ) ) {
+            //If theLeftOpenCell is a subset of theRightOpenCell
+            result.push_back( theLeftOpenCell );
+        } else {
+            if( definitely( theRightOpenCell.box().overlaps( theLeftOpenCell.box() ) ) ) {
+                //02 If the open cells overlap then let us get the cells contained by the two open cells
+                GridTreePaving theLeftCellSet = theLeftOpenCell.closure();
+                GridTreePaving theRightCellSet = theRightOpenCell.closure();
+
+                //03 Then we compute their intersection
+                GridTreePaving intersectionSet = Ariadne::intersection( theLeftCellSet, theRightCellSet );
+                //NOTE: It seems to me there is no need to recombine the resulting set, it will not reduce anything
+
+                //04 Iterate through all the cells in the intersection and first add their interiors to the resulting set, second
+                //check if the two cells have common border and/or vertex and if they do then add extra open cells, lying withing
+                //the intersection and covering the common border and/or vertex.
+                for ( GridTreeSubpaving::ConstIterator it = intersectionSet.begin(), end = intersectionSet.end(); it != end; it++) {
+                    //Cover the interior of the cell and the borders with the cells bordered with
+                    //the given one in each  positive direction in each dimension. The borders
+                    //are covered only if the neighboring cell is also in the intersection set.
+                    BinaryWord tmpWord;
+                    cover_cell_and_borders( (*it), intersectionSet, tmpWord, result );
+                }
+            }
+        }
+    }
+
+    return result;
+}
+
+//***************************************FRIENDS OF GridOpenCell*******************************************/
+
+OutputStream& operator<<(OutputStream& os, const GridOpenCell& theGridOpenCell ) {
+    //Write the grid data to the string stream
+    return os << "GridOpenCell( " << theGridOpenCell.grid() <<
+        ", Primary cell extent: " << theGridOpenCell.root_extent() <<
+        ", Base cell path: " << theGridOpenCell.word() <<
+        ", ExactBoxType (closure): " << theGridOpenCell.box() << " )";
+}
+
+
+
+//*******************************************GridTreeCursor***************************************/
+
+GridTreeCursor::GridTreeCursor( ) :
+    _currentStackIndex(-1), _pSubPaving(0), _theCurrentGridCell( Grid(), 0, BinaryWord() ) {
+}
+
+GridTreeCursor::GridTreeCursor(const GridTreeCursor & otherCursor) :
+    _currentStackIndex(otherCursor._currentStackIndex), _theStack(otherCursor._theStack),
+    _pSubPaving(otherCursor._pSubPaving), _theCurrentGridCell(otherCursor._theCurrentGridCell){
+}
+
+GridTreeCursor& GridTreeCursor::operator=(const GridTreeCursor & otherCursor) {
+    _currentStackIndex = otherCursor._currentStackIndex;
+    _theStack = otherCursor._theStack;
+    _pSubPaving = otherCursor._pSubPaving;
+    _theCurrentGridCell = otherCursor._theCurrentGridCell;
+
+    return *this;
+}
+
+GridTreeCursor::GridTreeCursor(const GridTreeSubpaving * pSubPaving) :
+    _currentStackIndex(-1), _pSubPaving(pSubPaving), _theCurrentGridCell( pSubPaving->root_cell() ) {
+    //Remember that GridTreeSubset contains GridCell
+
+    //Add the current node to the stack, since we are in it
+
+    //IVAN S ZAPREEV:
+    //NOTE: There is no need in allocating _theStack elements,
+    //it is all done in the push method
+    push(pSubPaving->_pRootTreeNode);
+}
+
+GridTreeCursor::~GridTreeCursor() {
+    //IVAN S ZAPREEV:
+    //WARNING: The subpaving should not be deallocated here!
+    //There are no other data feels that we need to deallocate
+    _pSubPaving = nullptr;
+}
+
+inline Void GridTreeCursor::push( BinaryTreeNode* pLatestNode ){
+    //If we are out of free space, increase the Array's capacity
+    if( static_cast<SizeType>(_currentStackIndex +1) == ( _theStack.size()  ) ){
+        _theStack.resize( _theStack.size() + STACK_SIZE_INCREMENT );
+    }
+
+    //The index for the tree node to be added
+    _currentStackIndex += 1;
+
+    //Put the tree node pointer into the stack
+    _theStack[static_cast<SizeType>(_currentStackIndex)] = pLatestNode;
+
+}
+
+inline BinaryTreeNode* GridTreeCursor::pop( ){
+    BinaryTreeNode* pLastNode = nullptr;
+
+    //If there are non-root nodes in the stack
+    if( _currentStackIndex > 0 ){
+        //Return the stack element at _currentStackIndex,
+        //then decrement the current element's index (here inverted in order)
+        _currentStackIndex--;
+        return _theStack[ static_cast<SizeType>(_currentStackIndex+1) ];
+    }
+
+    return pLastNode;
+}
+
+Bool GridTreeCursor::is_at_the_root() const {
+    //If we are pointing at the zero cell of the Array then it
+    //means that we are in the root of the tree
+    return (_currentStackIndex == 0);
+}
+
+Bool GridTreeCursor::is_enabled() const {
+    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->is_enabled();
+}
+
+Bool GridTreeCursor::is_disabled() const {
+    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->is_disabled();
+}
+
+Bool GridTreeCursor::is_leaf() const {
+    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->is_leaf();
+}
+
+Bool GridTreeCursor::is_root() const {
+    return  is_at_the_root();
+}
+
+Void GridTreeCursor::set_enabled() const {
+    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->set_enabled();
+}
+
+Void GridTreeCursor::set_disabled() const {
+    return _theStack[ static_cast<SizeType>(_currentStackIndex) ]->set_disabled();
+}
+
+Bool GridTreeCursor::is_left_child() const{
+    //If there is a parent node and the given node is it's left child
+    return ( _currentStackIndex > 0 ) && ( _theStack[ static_cast<SizeType>(_currentStackIndex - 1) ]->left_node() == _theStack[ static_cast<SizeType>(_currentStackIndex) ] );
+}
+
+Bool GridTreeCursor::is_right_child() const{
+    //If there is a parent node and the given node is it's right child
+    return ( _currentStackIndex > 0 ) && ( _theStack[ static_cast<SizeType>(_currentStackIndex - 1) ]->right_node() == _theStack[ static_cast<SizeType>(_currentStackIndex) ] );
+}
+
+GridTreeCursor& GridTreeCursor::move_up() {
+    return move(BinaryTreeDirection::UP);
+}
+
+GridTreeCursor& GridTreeCursor::move_left() {
+    return move(BinaryTreeDirection::LEFT);
+}
+
+GridTreeCursor& GridTreeCursor::move_right() {
+    return move(BinaryTreeDirection::RIGHT);
+}
+
+inline Void GridTreeCursor::updateTheCurrentGridCell( BinaryTreeDirection up_or_left_or_right ) {
+    if( up_or_left_or_right == BinaryTreeDirection::UP ){
+        //We go "up" in the tree, so we remove the last bit of the path.
+        _theCurrentGridCell._theWord.pop_back();
+    } else {
+        //Here up_or_left_or_right is either LEFT or RIGHT, so true defines moving to the right branch
+        _theCurrentGridCell._theWord.push_back( up_or_left_or_right==BinaryTreeDirection::RIGHT );
+    }
+    _theCurrentGridCell = GridCell( _theCurrentGridCell._theGrid, _theCurrentGridCell._theExtent, _theCurrentGridCell._theWord );
+}
+
+inline GridTreeCursor& GridTreeCursor::move(BinaryTreeDirection up_or_left_or_right) {
+    if( up_or_left_or_right == BinaryTreeDirection::UP ) {
+        if( is_root() ) {
+            throw NotAllowedMoveException(ARIADNE_PRETTY_FUNCTION);
+        }
+        //Remove the current node from the stack
+        pop();
+    }
+    else {
+        if( is_leaf() ){
+            throw NotAllowedMoveException(ARIADNE_PRETTY_FUNCTION);
+        }
+        //If we are not in the leaf node then we can go down
+        BinaryTreeNode* pNextNode;
+        if( up_or_left_or_right == BinaryTreeDirection::RIGHT ) { //move to the right
+            pNextNode = _theStack[ static_cast<SizeType>(_currentStackIndex) ]->right_node();
+        } else { // move to the left
+            pNextNode = _theStack[ static_cast<SizeType>(_currentStackIndex) ]->left_node();
+        }
+        //Put the node into the stack
+        push(pNextNode);
+    }
+
+    //Recompute the PavingGridCell
+    updateTheCurrentGridCell( up_or_left_or_right );
+    //Return the object back
+    return ( * this);
+}
+
+Bool GridTreeCursor::operator==(const GridTreeCursor& anotherGridTreeCursor) const {
+    Bool areEqual = false;
+    if( (this->_currentStackIndex >=0) && (anotherGridTreeCursor._currentStackIndex >=0 ) ){
+        areEqual = (this->_theStack[static_cast<SizeType>(this->_currentStackIndex)] == anotherGridTreeCursor._theStack[static_cast<SizeType>(anotherGridTreeCursor._currentStackIndex)]);
+    }
+    return areEqual;
+}
+
+GridTreeSubpaving GridTreeCursor::operator*() {
+    //IVAN S ZAPREEV:
+    //NOTE: The first three parameters define the location of the _theStack[ _currentStackIndex ]
+    //node with respect to the primary cell of the GridTreeSet.
+    return GridTreeSubpaving( _theCurrentGridCell._theGrid,
+                           _theCurrentGridCell._theExtent,
+                           _theCurrentGridCell._theWord,
+                           _theStack[ static_cast<SizeType>(_currentStackIndex) ] );
+}
+
+const GridTreeSubpaving GridTreeCursor::operator*() const {
+    return const_cast<GridTreeCursor&>(*this).operator*();
+}
+
+//************************************FRIENDS OF GridTreeCursor*****************************************/
+
+OutputStream& operator<<(OutputStream& os, const GridTreeCursor& theGridTreeCursor) {
+    const Int curr_stack_idx = theGridTreeCursor._currentStackIndex;
+    os << "GridTreeCursor( " << theGridTreeCursor._pSubPaving <<
+        ", Curr. stack index: " << curr_stack_idx  <<
+        ", Stack data: [ ";
+    for(SizeType i = 0; i <= static_cast<SizeType>(curr_stack_idx); i++){
+        os << theGridTreeCursor._theStack[i]->node_to_string() << ( ( i < static_cast<SizeType>(curr_stack_idx) ) ? "" : ", ");
+    }
+    return os<<" ], " << theGridTreeCursor._theCurrentGridCell << " )";
+}
+
+//***************************************GridTreeConstIterator************************************/
+
+GridTreeConstIterator::GridTreeConstIterator(  ) : _pGridTreeCursor()  {
+}
+
+GridTreeConstIterator::GridTreeConstIterator( const GridTreeSubpaving * pSubPaving, const ValidatedKleenean firstLastNone )
+    :  _pGridTreeCursor(pSubPaving)
+{
+    if( is_determinate( firstLastNone ) ) {
+        //If the first/last enabled node is not found, it means that there are no elements
+        //to iterate on, then we switch to the "end Iterator" state
+        _is_in_end_state = ! navigate_to( definitely( firstLastNone ) );
+    } else {
+        //In this case if we do nothing, the cursor in the Iterator will point to the root node
+        //Since this can be the only node in the tre we should add a marker that indicates that
+        //the Iterator is at the end state.
+        _is_in_end_state = true;
+    }
+}
+
+Void GridTreeConstIterator::find_next_enabled_leaf() {
+    if( _pGridTreeCursor.is_left_child() ) {
+        //Move to the parent node
+        _pGridTreeCursor.move_up();
+        //The right node must exist, due to the way we allocate the tree
+        //Also, this node is the root of the branch which we did not investigate.
+        _pGridTreeCursor.move_right();
+        //Find the first enabled leaf on this sub-tree
+        if( ! navigate_to(true) ){
+            //If there are no enabled leafs in the subtree, then
+            //move up and check the remaining branches recursively.
+            find_next_enabled_leaf();
+        }
+    } else {
+        if( _pGridTreeCursor.is_right_child() ) {
+            //Move to the parent node
+            _pGridTreeCursor.move_up();
+            //Move up and check the remaining branches recursively.
+            find_next_enabled_leaf();
+        } else {
+            //Is the root node already and we've seen all the leaf nodes
+            _is_in_end_state = true;
+        }
+    }
+}
+
+Bool GridTreeConstIterator::navigate_to(Bool firstLast){
+    Bool isEnabledLeafFound = false;
+    if( _pGridTreeCursor.is_leaf() ){
+        if ( _pGridTreeCursor.is_enabled() ) {
+            //If the leaf is enabled, then the search is over
+            isEnabledLeafFound = true;
+        }
+    } else {
+        //If it is not a leaf then we need to keep searching
+        if( firstLast ) {
+            //If we are looking for the first enabled
+            //node, then go to the left sub node
+            _pGridTreeCursor.move_left();
+        } else {
+            //Otherwise we go to the right
+            _pGridTreeCursor.move_right();
+        }
+        //Do recursive check of the newly visited node
+        isEnabledLeafFound = navigate_to( firstLast );
+        //If the leaf node is not found yet
+        if ( ! isEnabledLeafFound ) {
+            if( firstLast ) {
+                _pGridTreeCursor.move_right();
+            } else {
+                _pGridTreeCursor.move_left();
+            }
+            isEnabledLeafFound = navigate_to( firstLast );
+        }
+    }
+
+    //If the enabled leaf is not found and we are not in the root then we go back
+    if( ! isEnabledLeafFound && ! _pGridTreeCursor.is_root() ){
+        _pGridTreeCursor.move_up();
+    }
+
+    return isEnabledLeafFound;
+}
+
+Void GridTreeConstIterator::increment() {
+    //If we are not done iterating
+    if( ! _is_in_end_state){
+        //We are at some enabled-leaf node and we want to find the next one.
+        //The next node is somewhere on the right in the tree.
+        find_next_enabled_leaf();
+    }
+}
+
+Bool GridTreeConstIterator::equal( GridTreeConstIterator const & theOtherIterator) const {
+    //Check if both iterators are in the "end Iterator" state
+    Bool result = theOtherIterator._is_in_end_state && this->_is_in_end_state;
+
+    //If not then check if the cursors are equal (i.e. if they point to the same binary-tree node of the same (subpaving)
+    if( ! result ){
+        if( theOtherIterator._is_in_end_state || this->_is_in_end_state ){
+            //If at one is in the end state and the other is not then the answer is FALSE
+            result = false;
+        } else {
+            result = theOtherIterator._pGridTreeCursor == this->_pGridTreeCursor;
+        }
+    }
+
+    return result;
+}
+
+GridTreeConstIterator* GridTreeConstIterator::clone() const {
+    return new GridTreeConstIterator(*this);
+}
+
+Bool GridTreeConstIterator::equals( ForwardConstantIteratorInterface<GridCell> const & theOtherIterator) const {
+    GridTreeConstIterator const* theOtherIteratorPointer = dynamic_cast<GridTreeConstIterator const*>(&theOtherIterator);
+    return theOtherIteratorPointer && (this->equal(*theOtherIteratorPointer));
+}
+
+OutputStream& GridTreeConstIterator::_write(OutputStream& os) const {
+    return os << "GridTreeConstIterator(" << this->cursor() << ")";
+}
+
+
+//*******************************************GridTreeSubset******************************************/
+
+SizeType GridTreeSubpaving::size() const {
+    return BinaryTreeNode::count_enabled_leaf_nodes( this->binary_tree() );
+}
+
+Void GridTreeSubpaving::set_root_cell(Bool enabled_or_disabled)  {
+    this->_pRootTreeNode->set(enabled_or_disabled);
+}
+
+Void GridTreeSubpaving::mince_to_tree_depth( const Nat theNewTreeDepth ) {
+    _pRootTreeNode->mince( theNewTreeDepth );
+}
+
+Void GridTreeSubpaving::recombine() {
+    _pRootTreeNode->recombine();
+}
+
+Nat GridTreeSubpaving::tree_depth() const {
+    return _pRootTreeNode->depth();
+}
+
+Bool GridTreeSubpaving::operator==(const GridTreeSubpaving& anotherGridTreeSubset) const {
+    return ( this->_theGridCell == anotherGridTreeSubset._theGridCell ) &&
+        ( ( * this->_pRootTreeNode ) == ( * anotherGridTreeSubset._pRootTreeNode ) );
+}
+
+GridTreeSubpaving::GridTreeSubpaving( const Grid& theGrid, const Nat theExtent,
+                                       const BinaryWord& theWord, BinaryTreeNode * pRootTreeNode )
+    : _pRootTreeNode(pRootTreeNode), _theGridCell(theGrid, theExtent, theWord) {
+}
+
+GridTreeSubpaving::GridTreeSubpaving( const GridTreeSubpaving &otherSubset )
+    : _pRootTreeNode(otherSubset._pRootTreeNode),
+      _theGridCell(otherSubset._theGridCell) {
+}
+
+GridTreeSubpaving::~GridTreeSubpaving() {
+    //IVAN S ZAPREEV:
+    //WARNING: This method should have no implementation what so ever
+    //All the synamically allocatged data should be destroyed from the
+    //corresponding Paving object
+}
+
+inline Nat GridTreeSubpaving::compute_number_subdiv( FloatDP theWidth, const FloatDP theMaxWidth) const{
+    //Compute the minimum number of subdivisions N as:
+    //   minimum N : ( theWidth / 2^{N} ) <= theMaxWidth
+    //This is equivalent to (because all values are positive)
+    //   minimum N : theWidth / theMaxWidth <= 2^{N}
+    //log is a continuous-increasing dunction, thus the latter is
+    //equivalent to (since 0 < theMaxWidth, theWidth < infinite )
+    //   minimum N : log( theWidth / theMaxWidth ) <= N
+    //In computations then we need to take
+    //   N = ceil( log( theWidth / theMaxWidth ) )
+
+    //IVAN S ZAPREEV:
+    //NOTE: We take log_approx, log_approx because if we use _up and _down versions to maximize the answer,
+    //then it might become very inaccurate, and in case require more subdivisions than needed.
+    //NOTE: We need base 2 logarithm, we get it by the rule: log_a(b)/log_a(c) = log_c(a)
+    //PIETER COLLINS:
+    //NOTE: FloatDP now uses approximate operators by default
+    Nat result = 0;
+    if ( theWidth > theMaxWidth ){
+        //result = (Nat) ceil( div(approx, log(approx, div(approx, theWidth, theMaxWidth ) ) , log(approx, R(2.0) ) ) );
+        result = integer_cast<Nat>(ceil( div( near, log( near, div( near, theWidth, theMaxWidth ) ) , log( near, FloatDP(2.0_x,dp) ) ) ) );
+    }
+    return result;
+}
+
+Bool GridTreeSubpaving::is_empty() const {
+    return this->size() == 0;
+}
+
+DimensionType GridTreeSubpaving::dimension( ) const {
+    return grid().dimension();
+}
+
+
+const Grid& GridTreeSubpaving::grid() const {
+    return this->_theGridCell.grid();
+}
+
+GridCell GridTreeSubpaving::root_cell() const {
+    return _theGridCell;
+}
+
+UpperBoxType GridTreeSubpaving::bounding_box() const {
+    if(this->is_empty()) return ExactBoxType(this->dimension());
+
+    GridTreePaving::ConstIterator iter=this->begin();
+    UpperBoxType bbox = iter->box();
+
+    for( ; iter!=this->end(); ++iter) {
+        UpperBoxType cell = iter->box();
+        for(DimensionType i = 0; i < cell.dimension(); ++i) {
+            if(cell[i].lower_bound().raw() < bbox[i].lower_bound().raw()) bbox[i].set_lower_bound(cell[i].lower_bound());
+            if(cell[i].upper_bound().raw() > bbox[i].upper_bound().raw()) bbox[i].set_upper_bound(cell[i].upper_bound());
+        }
+    }
+
+    return bbox;
+
+}
+
+inline Nat GridTreeSubpaving::zero_cell_subdivisions_to_tree_subdivisions( const Nat numSubdivInDim, const Nat primaryCellExtent,
+                                                                           const Nat primaryToRootCellPathLength ) const {
+    //Here we take the extent of the primary cell that the subpaving's root cell is rooted to
+    //This extent times the number of dimensions is the number of subdivisions to make in
+    //the primary cell to reach the level of the zero cell. This plus the numSubdivInDim
+    //times the number of dimensions gives us the total number of the primary cell we have
+    //to make. But, the given paving is has the root node different from the primary cell,
+    //thus we have to subtract the length of the path from the primary cell to the root cell
+    //of this subpaving, to get the proper number of subdivisions to make in the binary tree
+    Int theTreeDepth = ( primaryCellExtent + numSubdivInDim ) * _theGridCell.grid().dimension() - primaryToRootCellPathLength;
+    //If the new depth is not positive then we already have the required number
+    //of subdivisions so then nothing has to be done, so we return zero!
+    return (theTreeDepth > 0) ? static_cast<Nat>(theTreeDepth) : 0u;
+}
+
+Void GridTreeSubpaving::mince( Nat numSubdivInDim ) {
+    mince_to_tree_depth( zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, _theGridCell.root_extent(), _theGridCell.word().size() ) );
+}
+
+Void GridTreeSubpaving::mince_to_depth( const Nat theNewDepth ) {
+    Int theNewTreeDepth = _theGridCell.root_extent() * _theGridCell.grid().dimension() + theNewDepth - _theGridCell.word().size();
+    _pRootTreeNode->mince( (theNewTreeDepth > 0) ? static_cast<Nat>(theNewTreeDepth) : 0u );
+}
+
+GridTreeSubpaving::ConstIterator GridTreeSubpaving::begin() const {
+    return GridTreeSubpaving::ConstIterator(this, true);
+}
+
+GridTreeSubpaving::ConstIterator GridTreeSubpaving::end() const {
+    return GridTreeSubpaving::ConstIterator(this, indeterminate);
+}
+
+const BinaryTreeNode * GridTreeSubpaving::binary_tree() const {
+    return _pRootTreeNode;
+}
+
+GridTreeSubpaving& GridTreeSubpaving::operator=( const GridTreeSubpaving &otherSubset) {
+    _pRootTreeNode = otherSubset._pRootTreeNode;
+    _theGridCell = otherSubset._theGridCell;
+
+    return *this;
+}
+
+inline GridTreeSubpaving* GridTreeSubpaving::_branch(Bool left_or_right) const {
+    return new GridTreeSubpaving(this->branch(left_or_right));
+}
+
+inline ForwardConstantIteratorInterface<GridCell>* GridTreeSubpaving::_begin() const {
+    return new GridTreeConstIterator(this->begin());
+}
+
+inline ForwardConstantIteratorInterface<GridCell>* GridTreeSubpaving::_end() const {
+    return new GridTreeConstIterator(this->end());
+}
+
+Bool GridTreeSubpaving::equals(const SubPavingInterface& paving) const {
+    return (*this) == dynamic_cast<const GridTreeSubpaving&>(paving);
+}
+
+Bool GridTreeSubpaving::superset(const GridCell& theCell) const {
+    return Ariadne::subset(theCell,*this);
+}
+
+Bool GridTreeSubpaving::subset(const SubPavingInterface& paving) const {
+    return Ariadne::subset(*this, dynamic_cast<const GridTreeSubpaving&>(paving));
+}
+
+Bool GridTreeSubpaving::intersects(const SubPavingInterface& paving) const {
+    return Ariadne::intersect(*this, dynamic_cast<const GridTreeSubpaving&>(paving));
+}
+
+GridTreeSubpaving* GridTreeSubpaving::clone( ) const {
+    // Return a GridTreeSet to ensure that memory is copied.
+    GridTreePaving* result = new GridTreePaving(this->grid(),this->_theGridCell.root_extent(),new BinaryTreeNode(false));
+    result->adjoin(*this);
+    return result;
+}
+
+
+GridTreeSubpaving GridTreeSubpaving::branch(Bool left_or_right) const {
+    BinaryWord theWord=this->_theGridCell.word();
+    theWord.append(left_or_right);
+    BinaryTreeNode* pBinaryTreeNode=this->_pRootTreeNode->child_node(left_or_right);
+    return GridTreeSubpaving(this->_theGridCell.grid(),this->_theGridCell.root_extent(),theWord,pBinaryTreeNode);
+}
+
+
+Void GridTreeSubpaving::subdivide( ApproximateDouble theInputMaxCellWidth ) {
+    //1. Take the ExactBoxType of this GridTreeSubset's GridCell
+    //   I.e. the box that corresponds to the root cell of
+    //   the GridTreeSubset in the original space.
+    const ExactBoxType& theRootCellBoxType = _theGridCell.box();
+
+    //2. Compute the widths of the box in each dimension and the maximum number
+    //   among the number of subdivisions that we need to do in each dimension
+    //   in order to make the width in this dimension <= theMaxCellWidth.
+    const DimensionType dimensions = _theGridCell.dimension();
+    Nat max_num_subdiv_dim = 0, num_subdiv = 0, max_subdiv_dim = 0;
+
+    FloatDP theMaxCellWidth(cast_exact(theInputMaxCellWidth),dp);
+
+    for(DimensionType i = 0; i < dimensions; i++){
+        //Get the number of required subdivisions in this dimension
+        //IVAN S ZAPREEV:
+        //NOTE: We compute sub_up because we do not want to have insufficient number of subdivisions
+        num_subdiv = compute_number_subdiv( sub(up, theRootCellBoxType[i].upper_bound(), theRootCellBoxType[i].lower_bound() ) , theMaxCellWidth );
+
+        //Compute the max number of subdivisions and the dimension where to do them
+        if( num_subdiv >= max_num_subdiv_dim ){
+            max_num_subdiv_dim = num_subdiv;
+            max_subdiv_dim = i;
+        }
+    }
+
+    //3. Let the maximum number of subdivisions M has to be done in dimension K  with the total number of
+    //   dimensions N: 1 <= K <= N. This means that from this cell down we have to do M splits for dimension K.
+    Nat needed_num_tree_subdiv = 0;
+    //If we need to subdivide in one of the dimensions then
+    if( max_num_subdiv_dim != 0 ){
+        //3.1 Compute the dimension C for which we had the last split, we should start with the primary cell which is the root of
+        //the GridTreeSet because from this cell we begin subdividing in dimension one by one: 1,2,...,N, then again 1,2,...,N.
+        //The path to the root of the sub-paving is given by the binary word, its length gives the number of tree subdivisions:
+        const Nat pathLength = _theGridCell.word().size();
+        //If pathLength == 0 then there were no subdivisions in the tree, so we assign last_subdiv_dim == -1
+        const Int last_subdiv_dim = ( pathLength == 0 ) ? -1 : static_cast<Int>(( pathLength - 1 )  % dimensions);
+
+        //3.2 Compute the needed number of tree subdivisions by first computing how many subdivisions in the tree
+        //we need to do to reach and split the dimension K one first time and then we should add the remaining
+        //( M - 1 )*N tree subdevisions which will make shure that the K'th dimension is subdivided M times.
+        Nat first_subdiv_steps;
+        if( last_subdiv_dim == static_cast<Int>(max_subdiv_dim) ) {
+            //If last_subdiv_dim == -1 then we will never get here
+            first_subdiv_steps = dimensions; // C == K
+        } else {
+            //If last_subdiv_dim == -1 then we will add a needed extra subdivision
+            first_subdiv_steps = static_cast<Nat>(static_cast<Int>(max_subdiv_dim) - last_subdiv_dim); // C < K
+            if( last_subdiv_dim > static_cast<Int>(max_subdiv_dim) ) {
+                //If last_subdiv_dim == -1 then we will never get here
+                first_subdiv_steps = dimensions - first_subdiv_steps; // C > K
+            }
+        }
+        needed_num_tree_subdiv = first_subdiv_steps + ( max_num_subdiv_dim - 1 ) * dimensions;
+    }
+
+    //Mince to the computed number of tree levels
+    mince_to_tree_depth(needed_num_tree_subdiv);
+}
+
+FloatDPApproximation GridTreeSubpaving::measure() const {
+    FloatDPApproximation result={0.0, dp};
+    for(ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
+        result+=iter->box().measure().value();
+    }
+    return result;
+}
+
+
+
+GridTreeSubpaving::operator ListSet<ExactBoxType>() const {
+    ListSet<ExactBoxType> result(this->root_cell().dimension());
+
+    //IVAN S ZAPREEV:
+    //NOTE: Push back the boxes, note that BoxListSet uses a vector, that
+    //in its turn uses std:vector to store boxes in it (via push_back method),
+    //the latter stores the copies of the boxes, not the references to them.
+    for (GridTreeSubpaving::ConstIterator it = this->begin(), end = this->end(); it != end; it++ ) {
+        result.push_back((*it).box());
+    }
+
+    return result;
+}
+
+Bool GridTreeSubpaving::superset( const ExactBoxType& theBoxType ) const {
+    //Check that the box corresponding to the root node of the set
+    //is not disjoint from theBoxType. If it is then the set is not a
+    //subset of theBoxType otherwise we need to traverse the tree and check
+    //if all it's enabled nodes give boxes that are subsets of theBoxType.
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    Bool isASubSet = theBoxType.subset( root_cell().box() );
+    if( ! isASubSet ) {
+        //If the box is not covered by the cell corresponding to the root node
+        //of the set, then clearly theBoxType is not a subset of this set.
+        return false;
+    } else {
+        //Otherwise, is theBoxType is possibly a subset then we try to see furhter
+        BinaryWord pathCopy( root_cell().word() );
+        return definitely( GridTreeSubpaving::_superset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) ) ;
+    }
+}
+
+Bool GridTreeSubpaving::subset( const ExactBoxType& theBoxType ) const {
+    //Check that the box corresponding to the root node of the set
+    //is not disjoint from theBoxType. If it is then the set is not a
+    //subset of theBoxType otherwise we need to traverse the tree and check
+    //if all it's enabled nodes give boxes that are subsets of theBoxType.
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    BinaryWord pathCopy( root_cell().word() );
+
+    return definitely( GridTreeSubpaving::_subset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) );
+}
+
+Bool GridTreeSubpaving::disjoint( const ExactBoxType& theBoxType ) const {
+    //Check that the box corresponding to the root node of the set
+    //is not disjoint from theBoxType. If it is then the set is not a
+    //subset of theBoxType otherwise we need to traverse the tree and check
+    //if all it's enabled nodes give boxes that are subsets of theBoxType.
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    BinaryWord pathCopy( root_cell().word() );
+
+    return definitely( GridTreeSubpaving::_disjoint( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) );
+}
+
+Bool GridTreeSubpaving::intersects( const ExactBoxType& theBoxType ) const {
+    //Check that the box corresponding to the root node of the set
+    //is not disjoint from theBoxType. If it is then the set is not a
+    //subset of theBoxType otherwise we need to traverse the tree and check
+    //if all it's enabled nodes give boxes that are subsets of theBoxType.
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    BinaryWord pathCopy( root_cell().word() );
+
+    return definitely( GridTreeSubpaving::_intersects( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theBoxType ) );
+}
+
+ValidatedLowerKleenean GridTreeSubpaving::covers( const ExactBoxType& theBoxType ) const {
+    //Simply check if theBoxType is covered by the set and then make sure that
+    //all tree cells that are not disjoint from theBoxType are enabled
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    Bool isASubSet = theBoxType.subset( root_cell().box() );
+    if( ! isASubSet ) {
+        //If the box is not covered by the cell corresponding to the root node
+        //of the set, then clearly theBoxType is not a subset of this set.
+        return false;
+    } else {
+        //Otherwise, is theBoxType is possibly a subset then we try to see furhter
+        BinaryWord pathCopy( root_cell().word() );
+        return GridTreeSubpaving::_superset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(widen(theBoxType)) );
+    }
+}
+
+ValidatedLowerKleenean GridTreeSubpaving::inside( const ExactBoxType& theBoxType ) const {
+    //Check that the box corresponding to the root node of the set
+    //is not disjoint from theBoxType. If it is then the set is not a
+    //subset of theBoxType otherwise we need to traverse the tree and check
+    //if all it's enabled nodes give boxes that are subsets of theBoxType.
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    BinaryWord pathCopy( root_cell().word() );
+
+    return GridTreeSubpaving::_subset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(narrow(theBoxType)) );
+}
+
+ValidatedLowerKleenean GridTreeSubpaving::separated( const ExactBoxType& theBoxType ) const {
+    //Simply check if the box does not intersect with the set
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    BinaryWord pathCopy( root_cell().word() );
+
+    return GridTreeSubpaving::_disjoint( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(widen(theBoxType)) );
+}
+
+ValidatedLowerKleenean GridTreeSubpaving::overlaps( const ExactBoxType& theBoxType ) const {
+    //Check if the box of the root cell overlaps with theBoxType,
+    //if not then theBoxType does not intersect with the cell,
+    //otherwise we need to find at least one enabled node
+    //in the binary tree, such that it's box overlaps theBoxType.
+
+    ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
+
+    BinaryWord pathCopy( root_cell().word() );
+
+    return GridTreeSubpaving::_intersects( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(narrow(theBoxType)) );
+}
+
+ValidatedKleenean GridTreeSubpaving::_superset( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
+                                             const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
+    ValidatedKleenean result;
+
+    //Check if the current node's cell intersects with theBoxType
+    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
+    ValidatedKleenean doIntersect = theCellsBoxType.overlaps( theBoxType );
+
+    if( ! definitely(doIntersect) ) {
+        //If theBoxType does not intersect with the cell then for the covering relation
+        //is is not important if we add or remove this cell, so we return true
+        result = true;
+    } else {
+        //If the cell possibly intersects with theBoxType then
+        if( pCurrentNode->is_leaf() ) {
+            if( pCurrentNode->is_enabled() ){
+                //If this is an enabled node that possibly or definitely intersects
+                //with theBoxType then the covering property is fine, so we return true
+                result = true;
+            } else {
+                //If the node is disabled then if it definitely intersects with theBoxType
+                //we have to report false, as there is not covering, in case it is only
+                //possible intersecting with theBoxType then we return possibly. The latter
+                //is because we are not completely sure, if the intersection does not
+                //have place then the covering property is not broken.
+                result = ! doIntersect;
+            }
+        } else {
+            //The node is not a leaf so we need to go down and see if the cell
+            //falls into sub cells for which we can sort things out
+            theWord.push_back(false);
+            const ValidatedKleenean result_left = GridTreeSubpaving::_superset( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
+            theWord.pop_back();
+
+            if( definitely(not result_left) ) {
+                //If there is definitely no covering property then this is all
+                //we need to know so there is not need to check the other branch.
+                result = false;
+            } else {
+                //If the covering property holds or is possible, then we still
+                //need to check the second branch because it can change the outcome.
+                theWord.push_back(true);
+                const ValidatedKleenean result_right = GridTreeSubpaving::_superset( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
+                theWord.pop_back();
+
+                if( definitely(not result_right) ) {
+                    //IF: The right sub-node reports false, then the result is false
+                    //NOTE: We already sorted out the case of ( (!result_left) == true) before
+                    result = false;
+                } else {
+                    if( definitely(result_left && result_right) ) {
+                        //ELSE: If both sub-nodes report true then it is true
+                        result = true;
+                    } else {
+                        if( is_indeterminate(result_left) || is_indeterminate(result_right) ) {
+                            //ELSE: If one of the sub-nodes reports indeterminate then indeterminate,
+                            result = indeterminate;
+                        } else {
+                            //ELSE: An impossible situation
+                            ARIADNE_ASSERT( false );
+                        }
+                    }
+                }
+            }
+        }
+    }
+
+    return result;
+}
+
+ValidatedKleenean GridTreeSubpaving::_subset( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
+                                           const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
+    ValidatedKleenean result;
+
+    //Check if the current node overlaps with theBoxType
+    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
+    ValidatedKleenean isASubset = theCellsBoxType.subset( theBoxType );
+
+    if( definitely(isASubset) ){
+        //It does not matter if pCurrentNode has enableds leaves or not we already know that the cell
+        //corresponding to this node is geometrically a subset of theBoxType.
+        result = true;
+    } else {
+        //If the cell corresponding to pCurrentNode is not a subset, then
+        if( pCurrentNode->is_leaf() && definitely(not isASubset) ) {
+            //If pCurrentNode is a leaf node and geometrically the cell (corresponding to the node theCellsBoxType) is not a
+            //subset of theBoxType, then: if it is enabled then pCurrentNode is not a subset of theBoxType but otherwise it is.
+            result = ! pCurrentNode->is_enabled();
+        } else {
+            if( pCurrentNode->is_leaf() && is_indeterminate( isASubset ) ) {
+                //If we are in a leaf node but we do not know for sure if the given cell
+                //is a subset of theBoxType then we can only check if it is enabled or not
+                if( pCurrentNode->is_enabled() ){
+                    //For an enabled-leaf node (a filled cell) we do not know if it is a subset of theBoxType
+                    result = indeterminate;
+                } else {
+                    //The node is disabled, so it represents an empty set, which is a subset of any set
+                    result = true;
+                }
+            } else {
+                //The node is not a leaf, and we either know that the cell of pCurrentNode is not a geometrical subset
+                //of theBoxType or we are not sure that it is, This means that we can do recursion to sort things out.
+                theWord.push_back(false);
+                const ValidatedKleenean result_left = GridTreeSubpaving::_subset( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
+                theWord.pop_back();
+
+                if( definitely(not result_left) ) {
+                    //If the left branch is not a subset, then there is no need to check the right one
+                    result = false;
+                } else {
+                    //if we still do not know the answer, then we check the right branch
+                    theWord.push_back(true);
+                    const ValidatedKleenean result_right = GridTreeSubpaving::_subset( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
+                    theWord.pop_back();
+
+                    if( definitely(not result_right) ) {
+                        //IF: The right sub-node reports false, then the result is false
+                        //NOTE: We already sorted out the case of ( (!result_left) == true) before
+                        result = false;
+                    } else {
+                        if( definitely(result_left && result_right) ) {
+                            //ELSE: If both sub-nodes report true then it is true
+                            result = true;
+                        } else {
+                            if( is_indeterminate(result_left) || is_indeterminate(result_right) ) {
+                                //ELSE: If one of the sub-nodes reports indeterminate then indeterminate,
+                                result = indeterminate;
+                            } else {
+                                //ELSE: An impossible situation
+                                ARIADNE_ASSERT( false );
+                            }
+                        }
+                    }
+                }
+            }
+        }
+    }
+
+    return result;
+}
+
+ValidatedKleenean GridTreeSubpaving::_disjoint( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
+                                             const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
+    ValidatedKleenean intersect;
+
+    //Check if the current node overlaps with theBoxType
+    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
+    ValidatedKleenean doPossiblyIntersect = !theCellsBoxType.disjoint( theBoxType );
+
+    if( possibly(doPossiblyIntersect) ) {
+        //If there is a possible intersection then we do the checking
+        if( pCurrentNode->is_leaf() ) {
+            //If this is a leaf node then
+            if( pCurrentNode->is_enabled() ){
+                //If the node is enabled, then we have a possible intersection
+                intersect = doPossiblyIntersect;
+            } else {
+                //Since the node is disabled, there can be no intersection
+                intersect = false;
+            }
+        } else {
+            //The node is not a leaf and the intersection is possible so check the left sub-node
+            theWord.push_back(false);
+            const ValidatedKleenean intersect_left = GridTreeSubpaving::_intersects( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
+            theWord.pop_back();
+
+            //
+            //WARNING: I know how to write a shorter code, like:
+            //          if( ! ( intersect = definitely( intersect_left ) ) ) {
+            //              ...
+            //          }
+            // I DO NOT DO THIS ON PERPOSE, KEEP THE CODE EASILY UNDERSTANDABLE!
+            //
+            if( definitely(intersect_left) ) {
+                //If we definitely have intersection for the left branch then answer is true
+                intersect = true;
+            } else {
+                //If we still not sure/ or do not know then try to search further, i.e. check the right node
+                theWord.push_back(true);
+                const ValidatedKleenean intersect_right = GridTreeSubpaving::_intersects( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
+                theWord.pop_back();
+                if( definitely(intersect_right) ) {
+                    //If we definitely have intersection for the right branch then answer is true
+                    intersect = true;
+                } else {
+                    //Now either we have indeterminate answers or we do not know, if one
+                    //if the answers for one of the branches was indeterminate then we
+                    //report indeterminate, otherwise it is definitely false.
+                    if( is_indeterminate( intersect_left ) || is_indeterminate( intersect_right )  ) {
+                        intersect = indeterminate;
+                    } else {
+                        intersect = false;
+                    }
+                    //ERROR: Substituting the above if statement with the following conditional assignement DOES NOT WORK:
+                    //    intersect = ( ( indeterminate( intersect_left ) || indeterminate( intersect_right ) ) ? indeterminate : false );
+                    //In this case, if we need to assign false, the proper branch of the conditional statement is executed,
+                    //but somehow the value of the "intersect" variable becomes indeterminate!
+                }
+            }
+        }
+    } else {
+        //If there is no intersection then we just stop with a negative intersect
+        intersect = false;
+    }
+
+    return !intersect;
+}
+
+ValidatedKleenean GridTreeSubpaving::_intersects( const BinaryTreeNode* pCurrentNode, const Grid& theGrid,
+                                               const Nat theExtent, BinaryWord &theWord, const ExactBoxType& theBoxType ) {
+    ValidatedKleenean result;
+
+    //Check if the current node overlaps with theBoxType
+    ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
+    ValidatedKleenean doPossiblyIntersect = theCellsBoxType.overlaps( theBoxType );
+
+    if( possibly(doPossiblyIntersect) ) {
+        //If there is a possible intersection then we do the checking
+        if( pCurrentNode->is_leaf() ) {
+            //If this is a leaf node then
+            if( pCurrentNode->is_enabled() ){
+                //If the node is enabled, then we have a possible intersection
+                result = doPossiblyIntersect;
+            } else {
+                //Since the node is disabled, there can be no intersection
+                result = false;
+            }
+        } else {
+            //The node is not a leaf and the intersection is possible so check the left sub-node
+            theWord.push_back(false);
+            const ValidatedKleenean result_left = GridTreeSubpaving::_intersects( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
+            theWord.pop_back();
+
+            //
+            //WARNING: I know how to write a shorter code, like:
+            //          if( ! ( result = definitely( result_left ) ) ) {
+            //              ...
+            //          }
+            // I DO NOT DO THIS ON PERPOSE, KEEP THE CODE EASILY UNDERSTANDABLE!
+            //
+            if( definitely(result_left) ) {
+                //If we definitely have intersection for the left branch then answer is true
+                result = true;
+            } else {
+                //If we still not sure/ or do not know then try to search further, i.e. check the right node
+                theWord.push_back(true);
+                const ValidatedKleenean result_right = GridTreeSubpaving::_intersects( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
+                theWord.pop_back();
+                if( definitely(result_right) ) {
+                    //If we definitely have intersection for the right branch then answer is true
+                    result = true;
+                } else {
+                    //Now either we have indeterminate answers or we do not know, if one
+                    //if the answers for one of the branches was indeterminate then we
+                    //report indeterminate, otherwise it is definitely false.
+                    if( is_indeterminate( result_left ) || is_indeterminate( result_right )  ) {
+                        result = indeterminate;
+                    } else {
+                        result = false;
+                    }
+                    //ERROR: Substituting the above if statement with the following conditional assignement DOES NOT WORK:
+                    //    result = ( ( indeterminate( result_left ) || indeterminate( result_right ) ) ? indeterminate : false );
+                    //In this case, if we need to assign false, the proper branch of the conditional statement is executed,
+                    //but somehow the value of the "result" variable becomes indeterminate!
+                }
+            }
+        }
+    } else {
+        //If there is no intersection then we just stop with a negative result
+        result = false;
+    }
+
+    return result;
+}
+
+Void GridTreeSubpaving::draw(CanvasInterface& theGraphic, const Projection2d& theProjection) const {
+    for(GridTreeSubpaving::ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
+        iter->box().draw(theGraphic,theProjection);
+    }
+}
+
+OutputStream&
+GridTreeSubpaving::_write(OutputStream& os) const
+{
+    return os << (*this);
+}
+
+//************************************FRIENDS OF GridTreeSubset*****************************************/
+
+Bool subset( const GridCell& theCell, const GridTreeSubpaving& theSet ) {
+    Bool result = false;
+
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theCell.grid() == theSet.grid() );
+
+    //Test if theCell is a subset of theSet, first check
+    //if the cell can be a subset of the given tree.
+    BinaryWord pathPrefixCell, pathPrefixSet;
+    if( subset( theCell, theSet.root_cell(), &pathPrefixCell, &pathPrefixSet, nullptr) ) {
+        //It can and thus pathPrefixSet is a prefix of pathPrefixCell. Both
+        //paths start in the same primary cell. Also note that pathPrefixSet
+        //is a path from primary_cell_extent to the root node of the binary
+        //tree in theSet. Therefore, removing 0..pathPrefixSet.size() elements
+        //from pathPrefixCell will give us a path to theCell in the tree of theSet.
+        pathPrefixCell.erase( pathPrefixCell.begin(), pathPrefixCell.begin() + static_cast<long>(pathPrefixSet.size()) );
+
+        //Check that the cell given by pathPrefixCell is enabled in the tree of theSet
+        result = theSet.binary_tree()->is_enabled( pathPrefixCell );
+    } else {
+        //DO NOTHING: the cell is a strict superset of the tree
+    }
+    return result;
+}
+
+Bool intersect( const GridCell& theCell, const GridTreeSubpaving& theSet ) {
+    Bool result = false;
+
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theCell.grid() == theSet.grid() );
+
+    //If the primary cell of the theCell is lower that that of theSet
+    //Then we re-root theCell to the primary cell theSet.root_cell().root_extent()
+    const GridCell * pWorkGridCell;
+    const Nat theSetsPCellExtent = theSet.root_cell().root_extent();
+    if( theSetsPCellExtent > theCell.root_extent() ) {
+        //Compute the path from the primary cell of theSet to the primary cell of theCell
+        BinaryWord pathFromSetsPCellToCell = GridCell::primary_cell_path( theCell.dimension(), theSetsPCellExtent, theCell.root_extent() );
+        pathFromSetsPCellToCell.append( theCell.word() );
+        pWorkGridCell = new GridCell( theCell.grid(), theSetsPCellExtent, pathFromSetsPCellToCell );
+    } else {
+        pWorkGridCell = &theCell;
+    }
+
+    //Compute the path for the primary cell of theCell to the primary cell of theSet
+    BinaryWord pathFromPCellCellToSetsRootNode = GridCell::primary_cell_path( theCell.dimension(), pWorkGridCell->root_extent(), theSetsPCellExtent );
+    //Append the path from the primary cell node to the root binary tree node of theSet
+    pathFromPCellCellToSetsRootNode.append( theSet.root_cell().word() );
+
+    const BinaryWord & workCellWord = pWorkGridCell->word();
+    if( workCellWord.is_prefix( pathFromPCellCellToSetsRootNode ) ) {
+        //If the path (from some primary cell) to the cell is a prefix
+        //of the path (from the same primary cell) to the root of the
+        //sub-paving, then theCell contains theSet
+
+        result = theSet.binary_tree()->has_enabled();
+    } else {
+        if( pathFromPCellCellToSetsRootNode.is_prefix( workCellWord ) ) {
+            //If the path (from some primary cell) to the root of the
+            //binary tree node (defining theSet) is the prefix of the
+            //path (from the same primary cell) to the cell, then the
+            //cell might be somwhere within the tree and we should
+            //check if it overlaps with the tree
+
+            const BinaryTreeNode *pCurrentNode = theSet.binary_tree();
+            //Note that, pathFromPCellCellToSetsRootNode.size() < workCellWord.size()
+            //Because we already checked for workCellWord.is_prefix( pathFromPCellCellToSetsRootNode )
+            //Here we try to find the node corresponding to theCell in the binary tree of theSet
+            //in case we encounter a leaf node then we just stop, because it is enough information for us
+            for( SizeType i = pathFromPCellCellToSetsRootNode.size(); i < workCellWord.size(); i++ ) {
+                if( pCurrentNode->is_leaf() ) {
+                    //We reached the leaf node and theCell is it's subset, so we stop now
+                    break;
+                } else {
+                    //Follow the path to the node corresponding to theCell within the binary tree of theSet
+                    pCurrentNode = ( workCellWord[i] ? pCurrentNode->right_node() : pCurrentNode->left_node() );
+                }
+            }
+
+            //At this point we have the following cases:
+            // 1. pCurrentNode - is a leaf node, contains theCell as a subset, is an enabled node
+            // RESULT: theSet and theCell overlap
+            // 2. pCurrentNode - is a leaf node, contains theCell as a subset, is a disabled node
+            // RESULT: theSet and theCell do not overlap
+            // 3. pCurrentNode - is a non-leaf node, corresponds to theCell, contains enabled sub-nodes
+            // RESULT: theSet and theCell overlap
+            // 4. pCurrentNode - is a non-leaf node, corresponds to theCell, contains no enabled sub-nodes
+            // RESULT: theSet and theCell do not overlap
+            result = pCurrentNode->has_enabled();
+        } else {
+            //DO NOTHING: The pathes to the cell and to the root of
+            //the binary tree (from the same primary cell) diverge
+            //This means that theCell and theSet do not overlap
+        }
+    }
+
+    if( theSetsPCellExtent > theCell.root_extent() ) {
+        delete pWorkGridCell;
+    }
+
+    return result;
+}
+
+// This is a helper method, it receives two GridTreeSubset elements
+// then it computes the primary cell that is common to them in a sence that
+// these sets can be rooted to it. After that the method updates the paths
+// with the information about the paths from the found primary cell to the
+// root binary tree nodes of both sets.
+static Void common_primary_cell_path(const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2, BinaryWord &pathCommonPCtoRC1, BinaryWord &pathCommonPCtoRC2 ) {
+    //Get the root cells for the subsets
+    GridCell rootCell1 = theSet1.root_cell();
+    GridCell rootCell2 = theSet2.root_cell();
+    //Get the extents of the primary cells for both subsets
+    const Nat extentPC1 = rootCell1.root_extent();
+    const Nat extentPC2 = rootCell2.root_extent();
+    if( extentPC2 > extentPC1 ) {
+        //Compute the path from the common primary cell to the root cell of theSet1
+        pathCommonPCtoRC1 = GridCell::primary_cell_path( rootCell1.dimension(), extentPC2, extentPC1 );
+        pathCommonPCtoRC1.append( rootCell1.word() );
+        //Compute the path from the common primary cell to the root cell of theSet2
+        pathCommonPCtoRC2 = rootCell2.word();
+    } else {
+        //Compute the path from the common primary cell to the root cell of theSet2
+        pathCommonPCtoRC1 = rootCell1.word();
+        //Compute the path from the common primary cell to the root cell of theSet1
+        pathCommonPCtoRC2 = GridCell::primary_cell_path( rootCell1.dimension(), extentPC1, extentPC2 );
+        pathCommonPCtoRC2.append( rootCell2.word() );
+    }
+}
+
+// This method locates the node in the tree rooted to pSuperTreeRootNode that corresponds to
+//  the path pathFromSuperToSub. In case we encounter a leaf node then we stop and return the node
+static const BinaryTreeNode * locate_node( const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord& pathFromSuperToSub ){
+    //Locate the node in the pSuperTreeRootNode such that it corresponds to pSubTreeRootNode
+    const BinaryTreeNode * pCurrentSuperTreeNode = pSuperTreeRootNode;
+    for( SizeType i = 0; i < pathFromSuperToSub.size(); i++ ) {
+        if( pCurrentSuperTreeNode->is_leaf() ) {
+            //We are in the leaf node and we have not yet reached the node
+            //corresponding to pSubTreeRootNode, because i < pathFromSuperToSub.size()
+            break;
+        } else {
+            pCurrentSuperTreeNode = ( pathFromSuperToSub[i] ? pCurrentSuperTreeNode->right_node() : pCurrentSuperTreeNode->left_node() );
+        }
+    }
+    return pCurrentSuperTreeNode;
+}
+
+// \brief This is a helper functiuon for Bool subset( const GridTreeSubset& theSet1, const GridTreeSubset& theSet2 )
+// pSuperTreeRootNode is the root tree node, pathFromSuperToSub is the path from this root node to the root node
+// pSubTreeRootNode. In general we see if the set represented by pSubTreeRootNode is a subset of pSuperTreeRootNode.
+// If pSubTreeRootNode has no enabled leaf nodes then the result is always true, else if pSuperTreeRootNode has no
+// enabled leaf nodes then the result is always false.
+static Bool subset(const BinaryTreeNode * pSubTreeRootNode, const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord & pathFromSuperToSub) {
+    Bool result = false;
+
+    //Check if both sets are not empty
+    if( pSubTreeRootNode->has_enabled() ) {
+        if( pSuperTreeRootNode->has_enabled() ) {
+            //Locate the node in pSuperTreeRootNode, by following the path pathFromSuperToSub
+            const BinaryTreeNode * pCurrentSuperTreeNode = locate_node( pSuperTreeRootNode, pathFromSuperToSub );
+
+            if( pCurrentSuperTreeNode->is_leaf() ) {
+                //If we've reached the leaf node then pSubTreeRootNode is a subset of pSuperTreeRootNode if this
+                //node is enabled, otherwise not. This is because we know that pSubTreeRootNode is not empty.
+                result = pCurrentSuperTreeNode->is_enabled();
+            } else {
+                //At this point pCurrentSuperTreeNode corresponds to pSubTreeRootNode
+                //So the trees are aligned now and we can continue checking further.
+                result = BinaryTreeNode::subset( pSubTreeRootNode, pCurrentSuperTreeNode );
+            }
+        } else {
+            //Nothing is a subset of an empty set except for an empty
+            //set, but we know that pSubTreeRootNode is not empty.
+            result = false;
+        }
+    } else {
+        //An empty set is a subset of any set including the empty set itself
+        result = true;
+    }
+
+    return result;
+}
+
+// This is a helper functiuon for Bool subset( const GridTreeSubset& theSet1, const GridTreeSubset& theSet2 )
+// pSuperTreeRootNode is the root tree node, pathFromSuperToSub is the path from this root node to the root node
+// pSubTreeRootNode. In general we see if the set represented by pSuperTreeRootNode is a subset of pSubTreeRootNode.
+// If pSuperTreeRootNode has no enabled leaf nodes then the result is always true, else if pSubTreeRootNode has no
+// enabled leaf nodes then the result is always false.
+static Bool subset( const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord & pathFromSuperToSub, const BinaryTreeNode * pSubTreeRootNode ) {
+    Bool result = false;
+
+    //First we iterate throught the path pathFromSuperToSub trying to reach the common node with pSubTreeRootNode
+    //Since we want to know if pSuperTreeRootNode is a subset of pSubTreeRootNode, the branches of pSuperTreeRootNode
+    //that we ommit traveling the path pathFromSuperToSub, should contain no enabled leaf nodes. Because otherwise
+    //pSuperTreeRootNode is not a subset of pSubTreeRootNode. Apart from this, once we encounter a leaf node on the
+    //path we stop because the we can already decide if pSuperTreeRootNode is a subset of pSubTreeRootNode.
+    Nat path_element = 0;
+    Bool areExtraLeavesDisabled = true;
+    const BinaryTreeNode *pCurrentSuperTreeNode = pSuperTreeRootNode;
+    while( ( path_element < pathFromSuperToSub.size() ) && areExtraLeavesDisabled ) {
+        if( pCurrentSuperTreeNode->is_leaf() ){
+            //We ended up in a leaf node so we have to stop iterating through the path
+            break;
+        } else {
+            if( pathFromSuperToSub[ path_element ] ) {
+                //The path goes right, check if the left branch has no enabled leaves
+                areExtraLeavesDisabled = ! pCurrentSuperTreeNode->left_node()->has_enabled();
+                pCurrentSuperTreeNode = pCurrentSuperTreeNode->right_node();
+            } else {
+                //The path goes left, check if the right branch has no enabled leaves
+                areExtraLeavesDisabled = ! pCurrentSuperTreeNode->right_node()->has_enabled();
+                pCurrentSuperTreeNode = pCurrentSuperTreeNode->left_node();
+            }
+        }
+        path_element++;
+    }
+
+    if( areExtraLeavesDisabled ) {
+        //If pSuperTreeRootNode does not have enabled leaves that are outside the bounding cell of
+        //pSubTreeRootNode, this means that pSuperTreeRootNode can be a subset of pSubTreeRootNode.
+        //Now we have to check that:
+        if( pCurrentSuperTreeNode->is_leaf() ) {
+            //A) We reached a leaf node, when following the path, then
+            if( pCurrentSuperTreeNode->is_enabled() ) {
+                //1. If it is enabled then it depends on whether we followed the path to the end
+                if( path_element < pathFromSuperToSub.size() ) {
+                    //1.1 If the path was not finished then pSuperTreeRootNode is a superset of pSubTreeRootNode
+                    result = false;
+                } else {
+                    //1.2 If the path was ended, i.e. pCurrentSuperTreeNode and pSubTreeRootNode are
+                    //aligned, then we simply need to check if one tree is a subset of another:
+                    //     Bool subset(const BinaryTreeNode *, const BinaryTreeNode * )
+                    result = BinaryTreeNode::subset( pCurrentSuperTreeNode, pSubTreeRootNode );
+                }
+            } else {
+                //2. if it is disabled then pSuperTreeRootNode is empty and thus is a subset of theSet2
+                result = true;
+            }
+        } else {
+            //B) We are in a non-leaf node, so we definitely reached the end of the path,
+            //thus proceed like in case A.1.2 (the root nodes of both trees are aligned )
+            result = BinaryTreeNode::subset( pCurrentSuperTreeNode, pSubTreeRootNode );
+        }
+    } else {
+        //If there are enabled leaf nodes in theSet1 that are outside of the bounding cell of
+        //pSubTreeRootNode, then clearly pSuperTreeRootNode is not a subset of pSubTreeRootNode.
+        result = false;
+    }
+    return result;
+}
+
+Bool subset( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
+    Bool result = false;
+
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
+
+    //Define paths for the root cells of theSet1 and theSet2 from the common primary cell
+    BinaryWord pathCommonPCtoRC1;
+    BinaryWord pathCommonPCtoRC2;
+    //Get the paths from the common primary cell to the root nodes of the set's binary trees
+    common_primary_cell_path( theSet1, theSet2, pathCommonPCtoRC1, pathCommonPCtoRC2 );
+
+    //At this point we know paths from the common primary cell
+    //to the root nodes of both subsets. If one of these paths is a prefix of
+    //the other one, then there is a chance that theSet1 is a subset of theSet2.
+    //If not, then they definitely do not overlap.
+    if( pathCommonPCtoRC1.is_prefix( pathCommonPCtoRC2 ) ) {
+        //In this case theSet2 is a subset of the bounding cell of theSet1. Still
+        //it is possible that theSet1 is a subset of theSet2 if all cells of theSet1
+        //outside the bounding box of theSet2 are disabled cells. This we check by
+        //following the path from the foor of theSet1 to the root of theSet2.
+        pathCommonPCtoRC2.erase_prefix( pathCommonPCtoRC1.size() );
+        result = subset( theSet1.binary_tree(), pathCommonPCtoRC2, theSet2.binary_tree() );
+    } else {
+        if( pathCommonPCtoRC2.is_prefix( pathCommonPCtoRC1 ) ) {
+            //Since pathCommonPCtoRC2 is a prefix of pathCommonPCtoRC1,
+            //theSet1 can be a subset of theSet2. This is because theSet1
+            //lies within the bounding cell of theSet2
+            pathCommonPCtoRC1.erase_prefix( pathCommonPCtoRC2.size() );
+            result = subset( theSet1.binary_tree(), theSet2.binary_tree(), pathCommonPCtoRC1 );
+        } else {
+            //The bounding boxes are disjoint, due to paths (from the common primary cell to
+            //their root nodes) that have different suffixes, so theSet1 is a subset of theSet2
+            //only if it is empty.
+            result = !theSet1.binary_tree()->has_enabled();
+        }
+    }
+
+    return result;
+}
+
+// This is a helper functiuon for Bool overlap( const GridTreeSubset& theSet1, const GridTreeSubset& theSet2 )
+// pSuperTreeRootNode is the root tree node, pathFromSuperToSub is the path from this root node to the root node
+// pSubTreeRootNode. In general we see if the sets represented by pSuperTreeRootNode and pSubTreeRootNode overlap.
+// If at least one of pSuperTreeRootNode and pSubTreeRootNode have no enabled leaf nodes then the result is always false.
+static Bool intersect(const BinaryTreeNode * pSuperTreeRootNode, const BinaryWord & pathFromSuperToSub, const BinaryTreeNode * pSubTreeRootNode) {
+    Bool result = false;
+
+    //Check if both sets are not empty
+    if( pSuperTreeRootNode->has_enabled() && pSubTreeRootNode->has_enabled() ) {
+
+        //Locate the node in pSuperTreeRootNode, by following the path pathFromSuperToSub
+        const BinaryTreeNode * pCurrentSuperTreeNode = locate_node( pSuperTreeRootNode, pathFromSuperToSub );
+
+        if( pCurrentSuperTreeNode->is_leaf() ) {
+            //If we've reached the leaf node then the sets overlap if this node is enabled,
+            //otherwise not. This is because we know that pSubTreeRootNode is not empty.
+            result = pCurrentSuperTreeNode->is_enabled();
+        } else {
+            //At this point pCurrentSuperTreeNode corresponds to pSubTreeRootNode
+            //So the trees are aligned now and we can continue checking further.
+            result = BinaryTreeNode::intersect( pCurrentSuperTreeNode, pSubTreeRootNode );
+        }
+    }
+
+    return result;
+}
+
+Bool intersect( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
+    Bool result = false;
+
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
+
+    //Define paths for the root cells of theSet1 and theSet2 from the common primary cell
+    BinaryWord pathCommonPCtoRC1;
+    BinaryWord pathCommonPCtoRC2;
+    //Get the paths from the common primary cell to the root nodes of the set's binary trees
+    common_primary_cell_path( theSet1, theSet2, pathCommonPCtoRC1, pathCommonPCtoRC2 );
+
+    //At this point we know paths from the common primary cell
+    //to the root nodes of both subsets. If one of these paths is a prefix of
+    //the other one, then there is a chance that the subsets overlap.
+    //If not, then they definitely do not overlap.
+    if( pathCommonPCtoRC1.is_prefix( pathCommonPCtoRC2 ) ){
+        //theSet2 is located somewhere within the bounding box of theSet1
+        pathCommonPCtoRC2.erase_prefix( pathCommonPCtoRC1.size() );
+        result = intersect( theSet1.binary_tree(), pathCommonPCtoRC2, theSet2.binary_tree() );
+    } else {
+        if( pathCommonPCtoRC2.is_prefix( pathCommonPCtoRC1 ) ){
+            //theSet1 is located somewhere within the bounding box of theSet2
+            pathCommonPCtoRC1.erase_prefix( pathCommonPCtoRC2.size() );
+            result = intersect( theSet2.binary_tree(), pathCommonPCtoRC1, theSet1.binary_tree() );
+        } else {
+            //The sets do not overlap
+            result = false;
+        }
+    }
+
+    return result;
+}
+
+OutputStream& operator<<(OutputStream& os, const GridTreeSubpaving& theGridTreeSubset) {
+    return os << "GridTreeSubset( Primary cell: " << theGridTreeSubset.root_cell() << ", " << (*theGridTreeSubset.binary_tree()) <<" )";
+}
+
+
+//********************************************GridTreeSet*********************************************/
+
+GridCell GridTreePaving::smallest_enclosing_primary_cell( const UpperBoxType& theBoxType ) const {
+    ARIADNE_ASSERT_MSG( this->dimension() == theBoxType.dimension(), "Cannot find enclosing cell for ExactBoxType  " << theBoxType << " for GridTreeSet with grid " << this->grid() );
+
+    return GridCell::smallest_enclosing_primary_cell( theBoxType, this->grid() );
+}
+
+Void GridTreePaving::adjoin( const GridCell& theCell ) {
+    ARIADNE_ASSERT_MSG( this->grid() == theCell.grid(), "Cannot adjoin GridCell with grid "<<theCell.grid()<<" to GridTreeSet with grid "<<this->grid() );
+    Bool has_stopped = false;
+    //Align the paving and the cell
+    BinaryTreeNode* pBinaryTreeNode = align_with_cell( theCell.root_extent(), true, false, has_stopped );
+
+    //If we are not trying to adjoin something into an enabled sub cell of the paving
+    if( ! has_stopped ){
+        //Add the enabled cell to the binary tree.
+        pBinaryTreeNode->add_enabled( theCell.word() );
+    }
+}
+
+Void GridTreePaving::adjoin( const GridTreeSubpaving& theOtherSubPaving ) {
+    ARIADNE_ASSERT_MSG( this->grid() == theOtherSubPaving.root_cell().grid(), "Cannot adjoin GridTreeSubset with grid "<<theOtherSubPaving.root_cell().grid()<<" to GridTreeSet with grid "<<this->grid() );
+
+    Bool has_stopped = false;
+    //Align the paving and the cell
+    BinaryTreeNode* pBinaryTreeNode = align_with_cell( theOtherSubPaving.root_cell().root_extent(), true, false, has_stopped );
+
+    //If we are not trying to adjoin something into an enabled sub cell of the paving
+    if( ! has_stopped ){
+        //Now, the pBinaryTreeNode of this paving corresponds to the primary cell common with theOtherSubPaving.
+        //The theOtherSubPaving's root node is defined the path theOtherSubPaving.word() which starts in the
+        //node corresponding to the common primary cell.
+        pBinaryTreeNode->add_enabled( theOtherSubPaving.binary_tree(), theOtherSubPaving.root_cell().word() );
+    }
+}
+
+Void GridTreePaving::adjoin( const SubPavingInterface& theOtherSubPaving ) {
+    this->adjoin(dynamic_cast<const GridTreeSubpaving&>(theOtherSubPaving));
+}
+
+Void GridTreePaving::restrict( const SubPavingInterface& theOtherSubPaving ) {
+    this->restrict(dynamic_cast<const GridTreeSubpaving&>(theOtherSubPaving));
+}
+
+Void GridTreePaving::remove( const SubPavingInterface& theOtherSubPaving ) {
+    this->remove(dynamic_cast<const GridTreeSubpaving&>(theOtherSubPaving));
+}
+
+
+GridTreePaving::GridTreePaving( ) : GridTreeSubpaving( Grid(), 0, BinaryWord(), new BinaryTreeNode( false ) ){
+}
+
+GridTreePaving::GridTreePaving( const Grid& theGrid, const Bool enable  ) :
+    GridTreeSubpaving( theGrid, 0, BinaryWord(), new BinaryTreeNode( enable ) ){
+}
+
+GridTreePaving::GridTreePaving( const Grid& theGrid, const Nat theExtent, BinaryTreeNode * pRootTreeNode ) :
+    GridTreeSubpaving( theGrid, theExtent, BinaryWord(), pRootTreeNode ){
+}
+
+GridTreePaving::GridTreePaving( const GridCell& theGridCell  ) :
+    GridTreeSubpaving( theGridCell.grid(), theGridCell.root_extent(), BinaryWord(), new BinaryTreeNode( false ) ){
+    this->adjoin(theGridCell);
+}
+
+GridTreePaving::GridTreePaving( const Nat theDimension, const Bool enable ) :
+    GridTreeSubpaving( Grid( theDimension, FloatDP(1.0_x,dp) ), 0, BinaryWord(), new BinaryTreeNode( enable )) {
+    //We want a [0,1]x...[0,1] cell in N dimensional space with no sxaling or shift of coordinates:
+    //1. Create a new non scaling grid with no shift of the coordinates
+    //2. The extent of the primary cell is zero, since is is [0,1]x...[0,1] itself
+    //3. The binary word that describes the path from the primary cell to the root
+    //   of the tree is empty, because any paving always has a primary cell as a root
+    //4. A new disabled binary tree node, gives us the root for the paving tree
+}
+
+GridTreePaving::GridTreePaving(const Grid& theGrid, const ExactBoxType & theLatticeBoxType ) :
+    GridTreeSubpaving( theGrid, GridCell::smallest_enclosing_primary_cell_extent( theLatticeBoxType ),
+                    BinaryWord(), new BinaryTreeNode( false ) ) {
+    //1. The main point here is that we have to compute the smallest primary cell that contains theBoundingBoxType
+    //2. This cell is defined by it's extent and becomes the root of the GridTreeSet
+    //3. ExactPoint 2. implies that the word to the root of GridTreeSubset should be set to
+    //   empty and we have only one disabled node in the binary tree
+}
+
+GridTreePaving::GridTreePaving( const Grid& theGrid, Nat theExtent, const BooleanArray& theTree, const BooleanArray& theEnabledCells ) :
+    GridTreeSubpaving( theGrid, theExtent, BinaryWord(), new BinaryTreeNode( theTree, theEnabledCells ) ) {
+    //Use the super class constructor and the binary tree constructed from the arrays: theTree and theEnabledCells
+}
+
+GridTreePaving::GridTreePaving( const GridTreePaving & theGridTreeSet ) :
+    GridTreeSubpaving( theGridTreeSet._theGridCell.grid(), theGridTreeSet._theGridCell.root_extent(),
+                    theGridTreeSet._theGridCell.word(), new BinaryTreeNode( *theGridTreeSet._pRootTreeNode )) {
+    //Call the super constructor: Create an exact copy of the tree, copy the bounding box
+}
+
+GridTreePaving& GridTreePaving::operator=( const GridTreePaving & theGridTreeSet ) {
+    //Delete the old tree and make a new one
+    if(this!=&theGridTreeSet) {
+        if( GridTreeSubpaving::_pRootTreeNode != nullptr){
+            delete GridTreeSubpaving::_pRootTreeNode;
+            GridTreeSubpaving::_pRootTreeNode = nullptr;
+        }
+        static_cast<GridTreeSubpaving&>(*this) =
+            GridTreeSubpaving( theGridTreeSet._theGridCell.grid(), theGridTreeSet._theGridCell.root_extent(),
+                            theGridTreeSet._theGridCell.word(), new BinaryTreeNode( *theGridTreeSet._pRootTreeNode ));
+    }
+    return *this;
+}
+
+GridTreePaving* GridTreePaving::clone() const {
+    return new GridTreePaving( *this );
+}
+
+GridTreePaving::~GridTreePaving() {
+    if( GridTreeSubpaving::_pRootTreeNode != nullptr){
+        delete GridTreeSubpaving::_pRootTreeNode;
+        GridTreeSubpaving::_pRootTreeNode = nullptr;
+    }
+}
+
+Void GridTreePaving::up_to_primary_cell( const Nat toPCellExtent ){
+    const Nat fromPCellExtent = this->root_cell().root_extent();
+
+    //The primary cell of this paving is lower then the one in the other paving so this
+    //paving's has to be rerooted to another primary cell and then we merge the pavings.
+    //1. Compute the path
+    BinaryWord primaryCellPath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), toPCellExtent, fromPCellExtent );
+    //2. Substitute the root node of the paiving with the extended tree
+    this->_pRootTreeNode = BinaryTreeNode::prepend_tree( primaryCellPath, this->_pRootTreeNode );
+    //3. Update the GridCell that corresponds to the root of this GridTreeSubset
+    this->_theGridCell = GridCell( this->_theGridCell.grid(), toPCellExtent, BinaryWord() );
+}
+
+BinaryTreeNode* GridTreePaving::align_with_cell( const Nat otherPavingPCellExtent, const Bool stop_on_enabled,
+                                                 const Bool stop_on_disabled, Bool & has_stopped ) {
+    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
+
+    //The current root node of the GridTreeSet
+    BinaryTreeNode * pBinaryTreeNode = this->_pRootTreeNode;
+
+    if( thisPavingPCellExtent > otherPavingPCellExtent ){
+
+        //The primary cell of this paving is higher then the one of the other paving.
+        //1. We locate the path to the primary cell node common with the other paving
+        BinaryWord primaryCellPath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), thisPavingPCellExtent, otherPavingPCellExtent );
+
+        //2. Locate the binary tree node corresponding to this primnary cell
+        Nat position = 0;
+        while( position < primaryCellPath.size() &&
+               !( has_stopped = ( ( pBinaryTreeNode->is_enabled() && stop_on_enabled ) ||
+                                  ( pBinaryTreeNode->is_disabled() && stop_on_disabled ) ) ) ){
+            //Split the node, if it is not a leaf it will not be changed
+            pBinaryTreeNode->split();
+            //Follow the next path step
+            pBinaryTreeNode = (primaryCellPath[position]) ? pBinaryTreeNode->right_node() : pBinaryTreeNode->left_node();
+            //Move to the next path element
+            position++;
+        }
+    } else {
+        if( thisPavingPCellExtent < otherPavingPCellExtent ) {
+            up_to_primary_cell( otherPavingPCellExtent );
+            pBinaryTreeNode = this->_pRootTreeNode;
+        } else {
+            //If we are rooted to the same primary cell, then there
+            //is nothing to be done, except adding the enabled cell
+        }
+    }
+    return pBinaryTreeNode;
+}
+
+Void GridTreePaving::_adjoin_cell( const Nat theCellRootExtent, BinaryWord const& theCellPath ) {
+    Bool has_stopped = false;
+    BinaryTreeNode* pBinaryTreeNode = this->align_with_cell( theCellRootExtent, true, false, has_stopped );
+    if( ! has_stopped ){
+        //Add the enabled cell to the binary tree.
+        pBinaryTreeNode->add_enabled( theCellPath );
+    }
+}
+
+
+Void GridTreePaving::_adjoin_outer_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
+                                                  const Nat max_mince_tree_depth,  const EffectiveEuclideanCompactSetInterface& theSet, BinaryWord * pPath ){
+    //Compute the cell corresponding to the current node
+    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
+
+    const EffectiveEuclideanOpenSetInterface* pOpenSet=dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(static_cast<const EuclideanSetInterfaceBase*>(&theSet));
+
+    if( definitely( theSet.separated( theCurrentCell.box() ) ) ) {
+        //DO NOTHING: We are in the node whoes representation in the original space is
+        //disjoint from pSet and thus there will be nothing added to this cell.
+    } else if( pOpenSet && definitely( pOpenSet->covers( theCurrentCell.box() ) ) ) {
+        pBinaryTreeNode->make_leaf(true);
+    } else {
+        //This node's cell is not disjoint from theSet, thus it is possible to adjoin elements
+        //of its outer approximation, unless this node is already and enabled leaf node.
+        if( pBinaryTreeNode->is_enabled() ){ //NOTE: A non-leaf node can not be enabled so this check suffices
+            //DO NOTHING: If it is enabled, then we can not add anything new to it.
+        } else {
+            //If the node is not enabled, so may be we can add something from the outer approximation of theSet.
+            if( pPath->size() < max_mince_tree_depth ){
+                //Since we still do not have the finest cells for the outer approximation of theSet, we split
+                pBinaryTreeNode->split(); //NOTE: splitting a non-leaf node does not do any harm
+                //Check the left branch
+                pPath->push_back(false);
+                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+                //Check the right branch
+                pPath->push_back(true);
+                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+            } else {
+                //We should not mince any further, so since the node is a leaf and
+                //it's cell is not disjoint from theSet, we mark the node as enabled.
+                if( !pBinaryTreeNode->is_leaf() ){
+                    //If the node is not leaf, then we make it an enabled one
+                    pBinaryTreeNode->make_leaf(true);
+                } else {
+                    //Just make the node enabled
+                    pBinaryTreeNode->set_enabled();
+                }
+            }
+        }
+    }
+    //Return to the previous level, since the initial evaluate is made
+    //with the empty word, we check that it is not yet empty.
+    if( pPath->size() > 0 ) {
+        pPath->pop_back();
+    }
+}
+
+Void GridTreePaving::_adjoin_outer_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
+                                                  const Nat max_mince_tree_depth,  const ValidatedEuclideanCompactSetInterface& theSet, BinaryWord * pPath ){
+    //Compute the cell correspomding to the current node
+    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
+
+    const EffectiveEuclideanOpenSetInterface* pOpenSet=dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(static_cast<const EuclideanSetInterfaceBase*>(&theSet));
+
+    if( definitely( theSet.separated( theCurrentCell.box() ) ) ) {
+        //DO NOTHING: We are in the node whoes representation in the original space is
+        //disjoint from pSet and thus there will be nothing added to this cell.
+    } else if( pOpenSet && definitely( pOpenSet->covers( theCurrentCell.box() ) ) ) {
+        pBinaryTreeNode->make_leaf(true);
+    } else {
+        //This node's cell is not disjoint from theSet, thus it is possible to adjoin elements
+        //of its outer approximation, unless this node is already and enabled leaf node.
+        if( pBinaryTreeNode->is_enabled() ){ //NOTE: A non-leaf node can not be enabled so this check suffices
+            //DO NOTHING: If it is enabled, then we can not add anything new to it.
+        } else {
+            //If the node is not enabled, so may be we can add something from the outer approximation of theSet.
+            if( pPath->size() < max_mince_tree_depth ){
+                //Since we still do not have the finest cells for the outer approximation of theSet, we split
+                pBinaryTreeNode->split(); //NOTE: splitting a non-leaf node does not do any harm
+                //Check the left branch
+                pPath->push_back(false);
+                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+                //Check the right branch
+                pPath->push_back(true);
+                _adjoin_outer_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+            } else {
+                //We should not mince any further, so since the node is a leaf and
+                //it's cell is not disjoint from theSet, we mark the node as enabled.
+                if( !pBinaryTreeNode->is_leaf() ){
+                    //If the node is not leaf, then we make it an enabled one
+                    pBinaryTreeNode->make_leaf(true);
+                } else {
+                    //Just make the node enabled
+                    pBinaryTreeNode->set_enabled();
+                }
+            }
+        }
+    }
+    //Return to the previous level, since the initial evaluate is made
+    //with the empty word, we check that it is not yet empty.
+    if( pPath->size() > 0 ) {
+        pPath->pop_back();
+    }
+}
+
+// FIXME: This method can fail if we cannot determine which of a node's children overlaps
+// the set. In principle this can be solved by checking if one of the children overlaps
+// the set, before doing recursion, and if none overlaps then we mark the present node as
+// enabled and stop. Generally speaking, the present algorithm is not wrong, it also gives us
+// a lower approximation, but it is simply less accurate than it could be.
+// TODO:Think of another representation in terms of covers but not pavings, then this problem
+// can be cured in a different fashion.
+Void GridTreePaving::_adjoin_lower_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
+                                                  const Nat max_mince_tree_depth,  const EffectiveEuclideanOvertSetInterface& theSet, BinaryWord * pPath ){
+    //Compute the cell correspomding to the current node
+    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
+
+    if( definitely( theSet.overlaps( theCurrentCell.box() ) ) ) {
+        if( pPath->size() >= max_mince_tree_depth ) {
+            //We should not mince any further.
+            //If the cell is not a leaf, then some subset is enabled,
+            //so the lower approximation does not add any information.
+            //If the cell is a leaf, we mark it as enabled.
+            if( ! pBinaryTreeNode->has_enabled() ) {
+                pBinaryTreeNode->make_leaf(true);
+            }
+        } else {
+            //If the node is no enabled, so may be we can add something from the lower approximation of theSet.
+            //Since we still do not have the finest cells for the lower approximation of theSet, we split
+            pBinaryTreeNode->split(); //NOTE: splitting a non-leaf node does not do any harm
+            //Check the left branch
+            pPath->push_back(false);
+            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+            //Check the right branch
+            pPath->push_back(true);
+            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+        }
+    }
+    //Return to the previous level, since the initial evaluate is made
+    //with the empty word, we check that it is not yet empty.
+    if( pPath->size() > 0 ) {
+        pPath->pop_back();
+    }
+}
+
+Void GridTreePaving::_adjoin_lower_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
+                                                  const Nat max_mince_tree_depth,  const EffectiveEuclideanOpenSetInterface& theSet, BinaryWord * pPath ){
+    //Compute the cell corresponding to the current node
+    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
+
+    if( definitely( theSet.covers( theCurrentCell.box() ) ) ) {
+        pBinaryTreeNode->make_leaf(true);
+        pBinaryTreeNode->mince( max_mince_tree_depth - pPath->size() );
+    } else if ( definitely( theSet.overlaps( theCurrentCell.box() ) ) ) {
+        if( pPath->size() >= max_mince_tree_depth ) {
+            //We should not mince any further.
+            //If the cell is not a leaf, then some subset is enabled,
+            //so the lower approximation does not add any information.
+            //If the cell is a leaf, we mark it as enabled.
+            if( pBinaryTreeNode->is_leaf() ) {
+                pBinaryTreeNode->set_enabled();
+            }
+        } else {
+            //Since we still do not have the finest cells for the outer approximation of theSet, we split
+            pBinaryTreeNode->split();  //NOTE: splitting a non-leaf node does not do any harm
+
+            //Check the left branch
+            pPath->push_back(false);
+            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+            //Check the right branch
+            pPath->push_back(true);
+            _adjoin_lower_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+        }
+    }
+    //Return to the previous level, since the initial evaluate is made
+    //with the empty word, we check that it is not yet empty.
+    if( pPath->size() > 0 ) {
+        pPath->pop_back();
+    }
+}
+
+Void GridTreePaving::adjoin_over_approximation( const ExactBoxType& theBoxType, const Nat numSubdivInDim ) {
+    // FIXME: This adjoins an outer approximation; change to ensure only overlapping cells are adjoined
+    for(DimensionType i=0; i!=theBoxType.dimension(); ++i) {
+        if(theBoxType[i].lower_bound()>=theBoxType[i].upper_bound()) {
+            ARIADNE_THROW(std::runtime_error,"GridTreeSet::adjoin_over_approximation(ExactBoxType,Nat)","ExactBoxType "<<theBoxType<<" has empty interior.");
+        }
+    }
+    this->adjoin_outer_approximation(theBoxType,numSubdivInDim);
+}
+
+Void GridTreePaving::adjoin_outer_approximation( const UpperBoxType& theBoxType, const Nat numSubdivInDim ) {
+    ExactBoxSetType theBoxSet=cast_exact_box(theBoxType);
+    EffectiveEuclideanCompactSetInterface const& theSet=theBoxSet;
+    this->adjoin_outer_approximation(theSet,numSubdivInDim);
+}
+
+Void GridTreePaving::adjoin_outer_approximation( const EffectiveEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
+    Grid theGrid( this->root_cell().grid() );
+    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
+
+    //1. Compute the smallest GridCell (corresponding to the primary cell)
+    //   that encloses the theSet (after it is mapped onto theGrid).
+    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theSet.bounding_box(), theGrid );
+    //Compute the extent of the primary cell for the outer approximation stepping up by the number of dimensions
+    const Nat outer_approx_primary_cell_extent = extent + theGrid.dimension();
+
+    //2. Align this paving and paving enclosing the provided set
+    Bool has_stopped = false;
+    BinaryTreeNode* pBinaryTreeNode = align_with_cell( outer_approx_primary_cell_extent, true, false, has_stopped );
+
+    //If the outer aproximation of the bounding box of the provided set is enclosed
+    //in an enabled cell of this paving, then there is nothing to be done. The latter
+    //is because adjoining the outer approx of the set will not change this paving.
+    if( ! has_stopped ){
+        //Compute the depth to which we must mince the outer approximation of the adjoining set.
+        //This depth is relative to the root of the constructed paving, which has been alligned
+        //with the binary tree node pBinaryTreeNode.
+        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, outer_approx_primary_cell_extent, 0 );
+
+        //Adjoin the outer approximation, computing it on the fly.
+        BinaryWord * pEmptyPath = new BinaryWord();
+        _adjoin_outer_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, outer_approx_primary_cell_extent,
+                                     max_mince_tree_depth, theSet, pEmptyPath );
+
+        delete pEmptyPath;
+    }
+}
+
+Void GridTreePaving::adjoin_outer_approximation( const ValidatedEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
+    Grid theGrid( this->root_cell().grid() );
+    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
+
+    //1. Compute the smallest GridCell (corresponding to the primary cell)
+    //   that encloses the theSet (after it is mapped onto theGrid).
+    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theSet.bounding_box(), theGrid );
+    //Compute the extent of the primary cell for the outer approximation stepping up by the number of dimensions
+    const Nat outer_approx_primary_cell_extent = extent + theGrid.dimension();
+
+    //2. Align this paving and paving enclosing the provided set
+    Bool has_stopped = false;
+    BinaryTreeNode* pBinaryTreeNode = align_with_cell( outer_approx_primary_cell_extent, true, false, has_stopped );
+
+    //If the outer aproximation of the bounding box of the provided set is enclosed
+    //in an enabled cell of this paving, then there is nothing to be done. The latter
+    //is because adjoining the outer approx of the set will not change this paving.
+    if( ! has_stopped ){
+        //Compute the depth to which we must mince the outer approximation of the adjoining set.
+        //This depth is relative to the root of the constructed paving, which has been alligned
+        //with the binary tree node pBinaryTreeNode.
+        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, outer_approx_primary_cell_extent, 0 );
+
+        //Adjoin the outer approximation, computing it on the fly.
+        BinaryWord * pEmptyPath = new BinaryWord();
+        _adjoin_outer_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, outer_approx_primary_cell_extent,
+                                     max_mince_tree_depth, theSet, pEmptyPath );
+
+        delete pEmptyPath;
+    }
+}
+
+// TODO:Think of another representation in terms of covers but not pavings, then the implementation
+// will be different, this is why, for now we do not fix these things.
+Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanLocatedSetInterface& theSet, const Nat numSubdivInDim ) {
+    this->adjoin_lower_approximation( theSet, cast_exact_box(theSet.bounding_box()), numSubdivInDim );
+}
+
+Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanOvertSetInterface& theSet, const Nat heightInDim, const Nat numSubdivInDim ) {
+    Grid theGrid( this->root_cell().grid() );
+    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
+
+    //Align this paving and paving at the given extent
+    Bool has_stopped = false;
+    BinaryTreeNode* pBinaryTreeNode = align_with_cell( heightInDim, true, false, has_stopped );
+
+    //If the lower aproximation of the bounding box of the provided set is enclosed
+    //in an enabled cell of this paving, then there is nothing to be done. The latter
+    //is because adjoining the outer approx of the set will not change this paving.
+    if( ! has_stopped ){
+        //Compute the depth to which we must mince the outer approximation of the adjoining set.
+        //This depth is relative to the root of the constructed paving, which has been alligned
+        //with the binary tree node pBinaryTreeNode.
+        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, heightInDim, 0 );
+
+        //Adjoin the outer approximation, computing it on the fly.
+        BinaryWord * pEmptyPath = new BinaryWord();
+        //const EffectiveEuclideanRegularSetInterface* theRegularVersionOfSet = dynamic_cast<const EffectiveEuclideanRegularSetInterface*>(&theSet);
+        const EffectiveEuclideanOpenSetInterface* theOpenVersionOfSet = dynamic_cast<const EffectiveEuclideanOpenSetInterface*>(&theSet);
+        //const EffectiveEuclideanLocatedSetInterface* theLocatedVersionOfSet = dynamic_cast<const EffectiveEuclideanLocatedSetInterface*>(&theSet);
+        const EffectiveEuclideanOvertSetInterface* theOvertVersionOfSet = dynamic_cast<const EffectiveEuclideanOvertSetInterface*>(&theSet);
+        if( theOpenVersionOfSet ) {
+            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOpenVersionOfSet, pEmptyPath );
+        } else {
+            _adjoin_lower_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, heightInDim, max_mince_tree_depth, *theOvertVersionOfSet, pEmptyPath );
+        }
+        delete pEmptyPath;
+    }
+}
+
+Void GridTreePaving::adjoin_lower_approximation( const EffectiveEuclideanOvertSetInterface& theSet, const ExactBoxType& theBoundingBoxType, const Nat numSubdivInDim ) {
+    Grid theGrid( this->root_cell().grid() );
+    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
+    ARIADNE_ASSERT( theBoundingBoxType.dimension() == this->root_cell().dimension() );
+
+    //Compute the smallest the primary cell that encloses the theSet (after it is mapped onto theGrid).
+    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theBoundingBoxType, theGrid );
+
+    //Adjoin the lower approximation with the bounding cell being the primary cell at the given extent.
+    adjoin_lower_approximation( theSet, extent, numSubdivInDim );
+}
+
+Void GridTreePaving::_adjoin_inner_approximation( const Grid & theGrid, BinaryTreeNode * pBinaryTreeNode, const Nat primary_cell_extent,
+                                                  const Nat max_mince_tree_depth, const EffectiveEuclideanOpenSetInterface& theSet, BinaryWord * pPath ) {
+    //Compute the cell corresponding to the current node
+    GridCell theCurrentCell( theGrid, primary_cell_extent, *pPath );
+
+    // If the set if closed, then we can use the separated(Box) method to speed-up computation
+    const EffectiveEuclideanClosedSetInterface* theClosedSet = dynamic_cast<const EffectiveEuclideanClosedSetInterface*>(&theSet);
+
+    if( ! pBinaryTreeNode->is_enabled() ) {
+        //If this it is not an enabled leaf node then we can add something to it.
+        if( definitely( theSet.covers( theCurrentCell.box() ) ) ) {
+            //If this node's box is a subset of theSet then it belongs to the inner approximation
+            //Thus we need to make it an enabled leaf and then do the mincing to the maximum depth
+            pBinaryTreeNode->make_leaf( true );
+        } else if ( theClosedSet && !definitely( theClosedSet->separated( theCurrentCell.box() ) ) ) {
+            //If theSet overlaps with the box corresponding to the given node in the original
+            //space, then there might be something to add from the inner approximation of theSet.
+            if( pPath->size() >= max_mince_tree_depth ) {
+                //DO NOTHING: Since it is the maximum depth to which we were allowed to mince
+                //and we know that the node's box only overlaps with theSet but is not it's
+                //subset we have to exclude it from the inner approximation of theSet.
+            } else {
+                //Since we still do not have the finest cells for the outer approximation of theSet, we split
+                pBinaryTreeNode->split();  //NOTE: splitting a non-leaf node does not do any harm
+
+                //Check the left branch
+                pPath->push_back(false);
+                _adjoin_inner_approximation( theGrid, pBinaryTreeNode->left_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+                //Check the right branch
+                pPath->push_back(true);
+                _adjoin_inner_approximation( theGrid, pBinaryTreeNode->right_node(), primary_cell_extent, max_mince_tree_depth, theSet, pPath );
+            }
+        } else {
+            //DO NOTHING: the node's box is disjoint from theSet and thus it or it's
+            //sub nodes can not be the part of the inner approximation of theSet.
+        }
+    } else {
+        //DO NOTHING: If this is an enabled leaf node we are in, then there is nothing to add to it
+        //TODO: We could mince the node until the depth (max_mince_tree_depth - pPath->size()) but I do
+        //not know if it makes any sence to do this, since this does not change the result.
+    }
+
+    //Return to the previous level, since the initial evaluate is made
+    //with the empty word, we check that it is not yet empty.
+    if( pPath->size() > 0 ) {
+        pPath->pop_back();
+    }
+}
+
+Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const Nat extent, const Nat numSubdivInDim ) {
+    Grid theGrid( this->root_cell().grid() );
+    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
+
+    //Align this paving and paving at the given extent
+    Bool has_stopped = false;
+    BinaryTreeNode* pBinaryTreeNode = align_with_cell( extent, true, false, has_stopped );
+
+    //If the inner aproximation of the bounding box of the provided set is enclosed
+    //in an enabled cell of this paving, then there is nothing to be done. The latter
+    //is because adjoining the inner approx of the set will not change this paving.
+    if( ! has_stopped ){
+        //Compute the depth to which we must mince the inner approximation of the adjoining set.
+        //This depth is relative to the root of the constructed paving, which has been alligned
+        //with the binary tree node pBinaryTreeNode.
+        const Nat max_mince_tree_depth = zero_cell_subdivisions_to_tree_subdivisions( numSubdivInDim, extent, 0 );
+
+        //Adjoin the inner approximation, computing it on the fly.
+        BinaryWord * pEmptyPath = new BinaryWord();
+        _adjoin_inner_approximation( GridTreeSubpaving::_theGridCell.grid(), pBinaryTreeNode, extent, max_mince_tree_depth, theSet, pEmptyPath );
+        delete pEmptyPath;
+    }
+}
+
+Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const ExactBoxType& theBoundingBoxType, const Nat numSubdivInDim ) {
+    Grid theGrid( this->root_cell().grid() );
+    ARIADNE_ASSERT( theSet.dimension() == this->root_cell().dimension() );
+    ARIADNE_ASSERT( theBoundingBoxType.dimension() == this->root_cell().dimension() );
+
+    //Compute the smallest the primary cell that encloses the theSet (after it is mapped onto theGrid).
+    const Nat extent = GridCell::smallest_enclosing_primary_cell_extent( theBoundingBoxType, theGrid );
+
+    //Compute the extent of the smallest primary cell that encloses the box
+    //Note that, since we will need to adjoin inner approximation bounded by
+    //the theBoundingBoxType, it is enough to take this cell's extent and not to
+    //go higher. Remember that the inner approximations consists of the cells
+    //that are subsets of the set theSet Adjoin the inner approximation with
+    //the bounding cell being the primary cell at the given extent.
+    adjoin_inner_approximation( theSet, extent, numSubdivInDim );
+}
+
+Void GridTreePaving::adjoin_inner_approximation( const EffectiveEuclideanSetInterface& theSet, const Nat numSubdivInDim ) {
+    EffectiveEuclideanOpenSetInterface const& theOpenSet = theSet;
+    ExactBoxType theBoundingBox = cast_exact_box(theSet.bounding_box());
+    this -> adjoin_inner_approximation(theOpenSet, theBoundingBox, numSubdivInDim);
+}
+
+Void GridTreePaving::adjoin_inner_approximation( const LowerBoxType& theBoxType, const Nat numSubdivInDim ) {
+    ExactBoxSetType theBoxSet=cast_exact_box(theBoxType);
+    this->adjoin_inner_approximation(theBoxSet,theBoxSet,numSubdivInDim);
+}
+
+Void GridTreePaving::restrict_to_lower( const GridTreeSubpaving& theOtherSubPaving ){
+    //The root of the binary tree of the current Paving
+    BinaryTreeNode * pBinaryTreeNode = this->_pRootTreeNode;
+
+    //The primary cell of this paving is higher then the one of the other paving.
+    //1. We locate the path to the primary cell node common with the other paving
+    BinaryWord rootNodePath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), this->root_cell().root_extent(), theOtherSubPaving.root_cell().root_extent() );
+
+    //2. Add the suffix path from the primary cell to the root node of
+    //theOtherSubPaving. This is needed in order to be able to reach this root.
+    rootNodePath.append( theOtherSubPaving.root_cell().word() );
+
+    //3. Restrict this binary tree to the other one assuming the path prefix rootNodePath
+    Nat position = 0;
+    //This will point to the children nodes that do not have chance for being in the restriction
+    BinaryTreeNode * pBranchToDisable = nullptr;
+    //Iterate the path, get to the root cell of theOtherSubPaving
+    while( position < rootNodePath.size() ){
+        if( pBinaryTreeNode->is_leaf() ){
+            //If we are in the leaf node then
+            if( pBinaryTreeNode->is_disabled() ){
+                //if it is disabled, then the intersection with
+                //the other set is empty so we just return
+                return;
+            } else {
+                //If it is an enabled leaf node then, because we still need to go further to reach the root cell of
+                //theOtherSubPaving, we split this node and disable the leaf that does not intersect with the other set
+                pBinaryTreeNode->split();
+            }
+        } else {
+            //If this is not a leaf node then we need to follow the path and disable the child
+            //node that is not on the path, because it will not make it into the intersection
+        }
+        //Follow the path and diable the other branch
+        if( rootNodePath[position] ){
+            pBranchToDisable = pBinaryTreeNode->left_node();
+            pBinaryTreeNode = pBinaryTreeNode->right_node();
+        } else {
+            pBranchToDisable = pBinaryTreeNode->right_node();
+            pBinaryTreeNode = pBinaryTreeNode->left_node();
+        }
+        //Move the unused branch into a disabled leaf node
+        pBranchToDisable->make_leaf(false);
+
+        //Move to the next path element
+        position++;
+    }
+    if( pBinaryTreeNode->is_enabled() ){
+        //If we ended up in a leaf node that is disabled, this meand that it is the only enabled node
+        //in this GridTreeSet. At this point it corresponds to the root node of the theOtherSubPaving
+        //and since we need to do the restriction to that set, we just need to copy it to this node.
+        pBinaryTreeNode->copy_from( theOtherSubPaving.binary_tree() );
+        //Return since there is nothing else we need to do
+        return;
+    } else {
+        if( pBinaryTreeNode->is_disabled() ){
+            //if we are in a disabled leaf node the the result of the
+            //restriction is an empty set and we just return
+            return;
+        } else {
+            //If it is two binary tree we have, then we need to restrict
+            //pBinaryTreeNode to theOtherSubPaving._pRootTreeNode
+            BinaryTreeNode::restrict( pBinaryTreeNode, theOtherSubPaving.binary_tree() );
+        }
+    }
+}
+
+Void GridTreePaving::remove_from_lower( const GridTreeSubpaving& theOtherSubPaving ){
+    //The root of the binary tree of the current Paving
+    BinaryTreeNode * pBinaryTreeNode = this->_pRootTreeNode;
+
+    //The primary cell of this paving is higher then the one of the other paving.
+    //1. We locate the path to the primary cell node common with the other paving
+    BinaryWord rootNodePath = GridCell::primary_cell_path( this->root_cell().grid().dimension(), this->root_cell().root_extent(), theOtherSubPaving.root_cell().root_extent() );
+
+    //2. Add the suffix path from the primary cell to the root node of
+    //theOtherSubPaving. This is needed in order to be able to reach this root.
+    rootNodePath.append( theOtherSubPaving.root_cell().word() );
+
+    //3. Remove theOtherSubPaving from this binary tree assuming the path prefix rootNodePath
+    Nat position = 0;
+    //Iterate the path, get to the root cell of theOtherSubPaving
+    while( position < rootNodePath.size() ){
+        if( pBinaryTreeNode->is_leaf() ){
+            //If we are in the leaf node then
+            if( pBinaryTreeNode->is_disabled() ){
+                //if it is disabled, then we are removing from not-enabled cells
+                //so there is nothing to be done and thus we simply terminate
+                return;
+            } else {
+                //If it is an enabled leaf node then, because we still need to go further
+                //to reach the root cell of theOtherSubPaving, we split this node
+                pBinaryTreeNode->split();
+            }
+        } else {
+            //If this is not a leaf node then we need to follow the path and then do removal
+        }
+        //Follow the path and do the removal, the other branch stays intact
+        pBinaryTreeNode = (rootNodePath[position]) ? pBinaryTreeNode->right_node() : pBinaryTreeNode->left_node();
+
+        //Move to the next path element
+        position++;
+    }
+    if( pBinaryTreeNode->is_disabled() ){
+        //If we are in a disabled leaf node the the result of the
+        //removal does not change this set and so we just return
+        return;
+    } else {
+        //We have two aligned binary trees we have to subtract enabled
+        //nodes of theOtherSubPaving._pRootTreeNode from pBinaryTreeNode
+        BinaryTreeNode::remove( pBinaryTreeNode, theOtherSubPaving.binary_tree() );
+    }
+}
+
+Void GridTreePaving::clear(  ) {
+    // TODO: Pieter: This implementation may not be optimal. Please could you
+    // check this, Ivan.
+    *this=GridTreePaving(this->grid());
+}
+
+
+Void GridTreePaving::restrict( const GridTreeSubpaving& theOtherSubPaving ) {
+    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
+    const Nat otherPavingPCellExtent = theOtherSubPaving.root_cell().root_extent();
+
+    ARIADNE_ASSERT( this->grid() == theOtherSubPaving.grid() );
+
+    //In case theOtherSubPaving has the primary cell that is higher then this one
+    //we extend it, i.e. reroot it to the same extent primary cell.
+    if( thisPavingPCellExtent < otherPavingPCellExtent ){
+        up_to_primary_cell( otherPavingPCellExtent );
+    }
+
+    //Now it is simple to restrict this set to another, since this set's
+    //primary cell is not lower then for the other one
+    restrict_to_lower( theOtherSubPaving );
+}
+
+Void GridTreePaving::remove( const GridCell& theCell ) {
+    ARIADNE_ASSERT( this->grid() == theCell.grid() );
+
+    //If needed, extend the tree of this paving and then find it's the
+    //primary cell common with the primary cell of the provided GridCell
+    //If we encounter a disabled node then we do not move on, since then
+    //there is nothing to remove, otherwise we split the node and go down
+    Bool has_stopped = false;
+    BinaryTreeNode* pCurrentPrimaryCell = align_with_cell( theCell.root_extent(), false, true, has_stopped );
+
+    if( ! has_stopped ) {
+        //Follow theCell.word() path in the tree rooted to pCommonPrimaryCell,
+        //do that until we encounter a leaf node, then stop
+        BinaryWord path = theCell.word();
+        Nat position = 0;
+        for(; position < path.size(); position++ ) {
+            //If we are in a leaf node then
+            if( pCurrentPrimaryCell->is_leaf() ) {
+                break;
+            }
+            pCurrentPrimaryCell = path[position] ? pCurrentPrimaryCell->right_node() : pCurrentPrimaryCell->left_node();
+        }
+
+        //Check if we stopped because it was a leaf node
+        if( pCurrentPrimaryCell->is_leaf() ) {
+            if( pCurrentPrimaryCell->is_enabled() ) {
+                //If the node is a leaf and enabled then continue following the path by splitting nodes
+                for(; position < path.size(); position++ ) {
+                    pCurrentPrimaryCell->split();
+                    pCurrentPrimaryCell = path[position] ? pCurrentPrimaryCell->right_node() : pCurrentPrimaryCell->left_node();
+                }
+                //Disable the sub-tree rooted to the tree node we navigated to
+                pCurrentPrimaryCell->set_disabled();
+            } else {
+                //DO NOTHING: The leaf node turns out to be already off,
+                //so there is nothing to remove from
+            }
+        } else {
+            //We followed the path to the cell, but we are still in some non-leaf node at this
+            //point it does no matter what is below, and we just remove the entire sub-tree.
+            pCurrentPrimaryCell->make_leaf( false );
+        }
+    } else {
+        //DO NOTHING: If we stopped it means that we were in a
+        //disabled node, so there is nothing to remove from
+    }
+}
+
+Void GridTreePaving::remove( const GridTreeSubpaving& theOtherSubPaving ) {
+    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
+    const Nat otherPavingPCellExtent = theOtherSubPaving.root_cell().root_extent();
+
+    ARIADNE_ASSERT( this->grid() == theOtherSubPaving.grid() );
+
+    //In case theOtherSubPaving has the primary cell that is higher then this one
+    //we extend it, i.e. reroot it to the same extent primary cell.
+    if( thisPavingPCellExtent < otherPavingPCellExtent ){
+        up_to_primary_cell( otherPavingPCellExtent );
+    }
+
+    //Now it is simple to remove theOtherSubPaving elements from this set,
+    //since this set's primary cell is not lower then for the other one.
+    remove_from_lower( theOtherSubPaving );
+}
+
+Void GridTreePaving::restrict_to_extent( const Nat theExtent ) {
+    const Nat thisPavingPCellExtent = this->root_cell().root_extent();
+
+    if( thisPavingPCellExtent > theExtent){
+        // ARIADNE_WARN("restricting GridTreeSet of extent " << this->root_cell().root_extent() << " to extent " << theExtent << ".");
+
+        BinaryWord pathToPCell = GridCell::primary_cell_path( this->dimension(), thisPavingPCellExtent, theExtent );
+
+        //Go throught the tree and disable all the leaves that
+        //are not rooted to the primary cell defined by this path
+        BinaryTreeNode * pCurrentNode = _pRootTreeNode;
+        for( SizeType i = 0; i < pathToPCell.size(); i++ ) {
+            if( pCurrentNode->is_leaf() ){
+                if( pCurrentNode->is_enabled() ){
+                    //If we are in an enabled leaf node then we split.
+                    //There are still cells to remove.
+                    pCurrentNode->split();
+                } else {
+                    //If we are in a disabled leaf node then we stop.
+                    //There is nothing to be done, because there are
+                    //no more enabled cells to remove
+                    break;
+                }
+            }
+            //If we are here, then we are in a non-leaf node
+            if( pathToPCell[i] ){
+                //Go to the right, and remove anything on the left
+                pCurrentNode->left_node()->make_leaf(false);
+                pCurrentNode = pCurrentNode->right_node();
+            } else {
+                //Go to the left, and remove anything on the right
+                pCurrentNode->right_node()->make_leaf(false);
+                pCurrentNode = pCurrentNode->left_node();
+            }
+        }
+    }
+}
+
+//************************************FRIENDS OF GridTreeSet*****************************************/
+
+GridTreePaving outer_approximation(const ExactBoxType& theBoxType, const Grid& theGrid, const Nat numSubdivInDim) {
+    ExactBoxSetType theBoxSet=theBoxType;
+    EffectiveEuclideanCompactSetInterface const& theSet=theBoxSet;
+    return outer_approximation(theSet,theGrid,numSubdivInDim);
+}
+
+GridTreePaving outer_approximation(const ExactBoxType& theBoxType, const Nat numSubdivInDim) {
+    return outer_approximation(theBoxType, Grid(theBoxType.dimension()), numSubdivInDim);
+}
+
+GridTreePaving outer_approximation( const EffectiveEuclideanCompactSetInterface& theSet, const Grid& theGrid, const Nat numSubdivInDim ) {
+    GridTreePaving result( theGrid );
+    result.adjoin_outer_approximation( theSet, numSubdivInDim );
+    return result;
+}
+
+GridTreePaving outer_approximation( const EffectiveEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
+    Grid theGrid( theSet.dimension() );
+    return outer_approximation( theSet, theGrid, numSubdivInDim );
+}
+
+GridTreePaving outer_approximation( const ValidatedEuclideanCompactSetInterface& theSet, const Grid& theGrid, const Nat numSubdivInDim ) {
+    GridTreePaving result( theGrid );
+    result.adjoin_outer_approximation( theSet, numSubdivInDim );
+    return result;
+}
+
+GridTreePaving outer_approximation( const ValidatedEuclideanCompactSetInterface& theSet, const Nat numSubdivInDim ) {
+    Grid theGrid( theSet.dimension() );
+    return outer_approximation( theSet, theGrid, numSubdivInDim );
+}
+
+GridTreePaving inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const Grid& theGrid, const Nat extent, const Nat numSubdivInDim ) {
+    GridTreePaving result( theGrid );
+    result.adjoin_inner_approximation( theSet, extent, numSubdivInDim );
+    return result;
+}
+
+GridTreePaving inner_approximation( const EffectiveEuclideanSetInterface& theSet, const Grid& theGrid, const Nat numSubdivInDim ) {
+    GridTreePaving result( theGrid );
+    result.adjoin_inner_approximation( theSet, numSubdivInDim );
+    return result;
+}
+
+GridTreePaving inner_approximation( const EffectiveEuclideanOpenSetInterface& theSet, const Grid& theGrid, const ExactBoxType& bounding_box, const Nat numSubdivInDim ) {
+    GridTreePaving result( theGrid );
+    result.adjoin_inner_approximation( theSet, bounding_box, numSubdivInDim );
+    return result;
+}
+
+GridTreePaving join( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
+
+    //Compute the highest primary cell
+    const Nat extentSet1 = theSet1.root_cell().root_extent();
+    const Nat extentSet2 = theSet2.root_cell().root_extent();
+    const Nat maxPCExtent = ( extentSet1 <  extentSet2 ) ? extentSet2 : extentSet1;
+
+    //Create the resulting GridTreeSet
+    GridTreePaving resultSet( theSet1.grid(), maxPCExtent, new BinaryTreeNode() );
+
+    //Adjoin the sets
+    resultSet.adjoin( theSet1 );
+    resultSet.adjoin( theSet2 );
+
+    //Return the result
+    return resultSet;
+}
+
+GridTreePaving intersection( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
+
+    //Compute the highest primary cell
+    const Nat extentSet1 = theSet1.root_cell().root_extent();
+    const Nat extentSet2 = theSet2.root_cell().root_extent();
+    const Nat maxPCExtent = ( extentSet1 <  extentSet2 ) ? extentSet2 : extentSet1;
+
+    //Create the resulting GridTreeSet
+    GridTreePaving resultSet( theSet1.grid(), maxPCExtent, new BinaryTreeNode() );
+
+    //Adjoin the first set
+    resultSet.adjoin( theSet1 );
+    //Intersect the result with the second set
+    resultSet.restrict( theSet2 );
+
+    //Return the result
+    return resultSet;
+}
+
+GridTreePaving difference( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2 ) {
+    //Test that the Grids are equal
+    ARIADNE_ASSERT( theSet1.grid() == theSet2.grid() );
+
+    //Compute the highest primary cell
+    const Nat extentSet1 = theSet1.root_cell().root_extent();
+    const Nat extentSet2 = theSet2.root_cell().root_extent();
+    const Nat maxPCExtent = ( extentSet1 <  extentSet2 ) ? extentSet2 : extentSet1;
+
+    //Create the resulting GridTreeSet
+    GridTreePaving resultSet( theSet1.grid(), maxPCExtent, new BinaryTreeNode() );
+
+    //Adjoin the first set
+    resultSet.adjoin( theSet1 );
+    //Remove the second set from the result set
+    resultSet.remove( theSet2 );
+
+    //Return the result
+    return resultSet;
+}
+
+
+
+struct LatticeCell {
+    DimensionType _dim;
+    Nat _root;
+    BinaryWord _word;
+};
+
+
+
+BinaryWord product_word(GridCell const& gc1, GridCell const& gc2) {
+    Nat extent = std::max(gc1.root_extent(),gc2.root_extent());
+    Int h1=static_cast<Int>(gc1.root_extent());
+    Int h2=static_cast<Int>(gc2.root_extent());
+    DimensionType n1=gc1.dimension();
+    DimensionType n2=gc2.dimension();
+    Int r1=gc1.depth()/static_cast<Int>(gc1.dimension()); // refinements
+    BinaryWord const& w1=gc1.word();
+    BinaryWord const& w2=gc2.word();
+    BinaryWord word;
+    SizeType i1=0u, i2=0u;
+    Int level=-static_cast<Int>(extent);
+    while (level < r1) {
+        if (-level>h1) {
+            for(DimensionType j=0; j!=n1; ++j) { word.append(level%2); }
+        } else {
+            for(DimensionType j=0; j!=n1; ++j) { word.append(w1[i1]); ++i1; }
+        }
+        if (-level>h2) {
+            for(DimensionType j=0; j!=n2; ++j) { word.append(level%2); }
+        } else {
+            for(DimensionType j=0; j!=n2; ++j) { word.append(w2[i2]); ++i2; }
+        }
+        ++level;
+    }
+    return word;
+}
+
+// The product of two cells of the same depth
+GridCell product(GridCell const& gc1, GridCell const& gc2) {
+    ARIADNE_ASSERT_MSG(gc1.depth()*static_cast<Int>(gc2.dimension())==gc2.depth()*static_cast<Int>(gc1.dimension()),"Computing product of grid cells "<<gc1<<" and "<<gc2<<" which do not have the same depth in each dimension.");
+    GridCell r(join(gc1.grid(),gc2.grid()),std::max(gc1.root_extent(),gc2.root_extent()),product_word(gc1,gc2));
+//    std::cerr<<"r="<<r<<"\nr.box()="<<r.box()<<", product(bx1,bx2)="<<product(gc1.box(),gc2.box())<<"\n";
+//    std::cerr<<"r-codes="<<BinaryCode(tree_height,word).split(n1+n2)<<"\n";
+//    std::cerr<<"gc1-codes="<<BinaryCode(gc1.tree_height(),gc1.word()).split(n1)<<"\n";
+//    std::cerr<<"gc2-codes="<<BinaryCode(gc2.tree_height(),gc2.word()).split(n2)<<"\n";
+    ARIADNE_ASSERT(r.box()==product(gc1.box(),gc2.box()));
+    return r;
+}
+
+// The product of two cells of the same depth
+GridTreePaving product(GridTreeSubpaving const& theSet1, GridTreeSubpaving const& theSet2) {
+    GridTreePaving result(join(theSet1.grid(),theSet2.grid()));
+    for (GridCell const& theCell1 : theSet1) {
+        for (GridCell const& theCell2 : theSet2) {
+            result._adjoin_cell(std::max(theCell1.root_extent(),theCell2.root_extent()),product_word(theCell1,theCell2));
+        }
+    }
+    return result;
+}
+
+// The product of two cells of the same depth
+GridTreePaving product(GridCell const& theCell1, GridTreeSubpaving const& theSet2) {
+    GridTreePaving result(join(theCell1.grid(),theSet2.grid()));
+    for (GridCell const& theCell2 : theSet2) {
+        result.adjoin(product(theCell1,theCell2));
+    }
+    return result;
+}
+
+Void draw(CanvasInterface& theGraphic, const Projection2d& theProjection, const GridCell& theGridCell) {
+    theGridCell.box().draw(theGraphic,theProjection);
+}
+
+Void draw(CanvasInterface& theGraphic, const Projection2d& theProjection, const GridTreePaving& theGridTreeSet) {
+    for(GridTreePaving::ConstIterator iter=theGridTreeSet.begin(); iter!=theGridTreeSet.end(); ++iter) {
+        iter->box().draw(theGraphic,theProjection);
+    }
+}
+
+Void draw(CanvasInterface& theGraphic, const Projection2d& theProjection, const EffectiveEuclideanCompactSetInterface& theSet) {
+    static const Int DRAWING_DEPTH=16;
+    draw(theGraphic,theProjection,outer_approximation(theSet,Grid(theSet.dimension()),DRAWING_DEPTH));
+}
+
+OutputStream& operator<<(OutputStream& os, const GridTreePaving& theGridTreeSet) {
+    const GridTreeSubpaving& theGridTreeSubset = theGridTreeSet;
+    return os << "GridTreeSet( " << theGridTreeSubset << " )";
+}
+
+template<class X> Vector<X> project(Vector<X> const& v, const Array<SizeType>& prj) {
+    return Vector<X>(prj.size(),[&](SizeType i){return v[prj[i]];});
+}
+
+Grid project(Grid const& grd, Array<SizeType> const& prj) {
+    return Grid(project(grd.origin(),prj),project(grd.lengths(),prj));
+}
+
+GridTreePaving image(const GridTreePaving& theSet, const Projection& theProjection) {
+    Grid resultGrid=project(theSet.grid(),theProjection.indices());
+    GridTreePaving theResultSet(resultGrid);
+    for (GridCell const& theCell : theSet) {
+        BinaryWord const& theWord = theCell.word();
+        assert(theWord.size() % theSet.dimension() == 0);
+        BinaryWord resultWord;
+        SizeType n=theWord.size()/theSet.dimension()*theResultSet.dimension();
+        resultWord.reserve(n);
+        for (SizeType i=0; i!=n; ++i) {
+            resultWord.append(theWord[(i/theResultSet.dimension())*theSet.dimension()+theProjection[i%theResultSet.dimension()]]);
+        }
+        theResultSet._adjoin_cell(theCell.root_extent(),resultWord);
+    }
+    theResultSet.recombine();
+    return theResultSet;
+}
+
+
+GridTreePaving outer_skew_product(GridTreePaving const& gtp1, Grid const& g2, ValidatedVectorMultivariateFunction const& f) {
+    Grid g1=gtp1.grid();
+    Nat tree_depth = gtp1.tree_depth();
+    Nat fineness=tree_depth/g1.dimension()-gtp1.root_cell().root_extent();
+
+    const_cast<GridTreePaving&>(gtp1).mince(fineness);
+    GridTreePaving gtp2(g2);
+    GridTreePaving r(join(g1,g2));
+
+    for (GridCell gc1 : gtp1) {
+        ValidatedConstrainedImageSet s2(gc1.box(),f);
+        gtp2.adjoin_outer_approximation(s2,fineness);
+        gtp2.mince(fineness);
+        for (GridCell gc2 : gtp2) {
+            r.adjoin(product(gc1,gc2));
+        }
+        gtp2.clear();
+    }
+    r.recombine();
+    return r;
+}
+
+
+} // namespace Ariadne
+
diff --git a/source/numeric/decimal.hpp b/source/numeric/decimal.hpp
index 5ade4a1..8c465b1 100644
--- a/source/numeric/decimal.hpp
+++ b/source/numeric/decimal.hpp
@@ -1,167 +1,167 @@
-/***************************************************************************
- *            numeric/decimal.hpp
- *
- *  Copyright  2014-20  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-/*! \file numeric/decimal.hpp
- *  \brief ExactTag decimal numbers, useful for user input.
- */
-
-#ifndef ARIADNE_DECIMAL_HPP
-#define ARIADNE_DECIMAL_HPP
-
-#include <string>
-#include <iostream>
-#include "utility/typedefs.hpp"
-#include "numeric/number.decl.hpp"
-#include "numeric/integer.hpp"
-
-namespace Ariadne {
-
-//! \ingroup NumericModule
-//! \brief A decimal number.
-//! \sa Integer, Dyadic, Rational, Real
-class Decimal
-{
-  public:
-    static const Integer _ten;
-    Integer _p; Nat _q;
-  public:
-    typedef ExactTag Paradigm;
-    //! \brief Default constructor creates the number 0 (zero).
-    Decimal();
-    //! \brief Construct the number p/10^q.
-    explicit Decimal(Integer p, Nat q);
-    explicit Decimal(Integer p, Int q) = delete;
-    //! \brief Construct from a builtin integral type.
-    template<BuiltinIntegral N> Decimal(N n);
-    //! \brief Construct from a double-precision floating-point number representation.
-    explicit Decimal(double d);
-    //! \brief Construct from a string representation.
-    explicit Decimal(String const&);
-    //! \brief Convert from a dyadic.
-    Decimal(Dyadic const&);
-    //! \brief Convert to a rational number.
-    operator Rational () const;
-    //! \brief Convert to an generic number.
-    operator ExactNumber () const;
-    //! \brief A string literal
-    String literal() const;
-
-    //! \name Arithmetic operators
-    //!@{
-    friend Decimal operator+(Decimal const& d); //!< Unary plus \a +d.
-    friend Decimal operator-(Decimal const& d); //!< Unary minus \a -d.
-    friend Decimal operator+(Decimal const& d1, Decimal const& d2); //!< Plus \a d1+d2.
-    friend Decimal operator-(Decimal const& d1, Decimal const& d2); //!< Minus \a d1-d2.
-    friend Decimal operator*(Decimal const& d1, Decimal const& d2); //!< Times \a d1*d2.
-    friend Rational operator/(Decimal const& d1, Decimal const& d2); //!< Divides \a d1/d2, yielding a rational.
-    friend Decimal& operator+=(Decimal& d1, Decimal const& d2); //!< Inplace plus \a d1:=d1+d2.
-    //!@}
-
-    //!@{
-    //! \name Comparison operators
-    friend Boolean operator==(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::EQUAL; } //!< <p/>
-    friend Boolean operator!=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::EQUAL; } //!< <p/>
-    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::GREATER; } //!< <p/>
-    friend Boolean operator>=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::LESS; } //!< <p/>
-    friend Boolean operator< (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::LESS; } //!< <p/>
-    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::GREATER; } //!< <p/>
-    //!@}
-
-    //!@{
-    //! \name Arithmetic operations
-    friend Decimal nul(Decimal const& d); //!< Zero \a 0.
-    friend Decimal sqr(Decimal const& d); //!< Square \a d<sup>2</sup>.
-    friend Decimal hlf(Decimal const& d); //!< Half \a d/2.
-    //!@}
-
-    //!@{
-    //! \name Lattice operations
-    friend Decimal abs(Decimal const& d); //!< Absolute value \a |d|.
-    friend Decimal min(Decimal const& d1, Decimal const& d2); //!< Minimum \a d1∧d2.
-    friend Decimal max(Decimal const& d1, Decimal const& d2); //!< Maximum \a d1∨d2.
-    //!@}
-
-    //!@{
-    //! \name Comparison operations
-    friend Comparison cmp(Decimal const& d1, Decimal const& d2); //!< Comparison of two decimal values.
-    //!@}
-
-    //! \brief Write to an output stream.
-    friend OutputStream& operator<<(OutputStream& os, Decimal const& d);
-    //! \brief Construct from an integer literal.
-    friend Decimal operator"" _decimal (unsigned long long int n);
-    //! \brief Construct from a floating-point literal.
-    friend Decimal operator"" _decimal (long double dbl);
-    //! \brief Construct from a string literal.
-    friend Decimal operator"" _decimal (const char* str, std::size_t);
-
-    //! \brief Shorthand for operator""_decimal.
-    friend Decimal operator"" _dec (long double dbl);
-
-    //! \brief Alternative for operator""_decimal for use in Python interface.
-    friend Decimal dec_(long double dbl);
-
-    void canonicalize();
-};
-Decimal operator"" _dec (unsigned long long int n);
-Decimal operator"" _dec (long double dbl);
-Decimal operator"" _dec (const char* str, std::size_t);
-Decimal operator"" _decimal (unsigned long long int n);
-Decimal operator"" _decimal (long double dbl);
-Decimal operator"" _decimal (const char* str, std::size_t);
-
-template<BuiltinIntegral N> inline Decimal::Decimal(N n) : Decimal(n,0u) { }
-
-
-template<> class Positive<Decimal> : public Decimal {
-  public:
-    Positive() : Decimal() { }
-    template<BuiltinUnsignedIntegral M> Positive(M m) : Decimal(m) { }
-    Positive(int n) = delete;
-    explicit Positive(Decimal const& w) : Decimal(w) { ARIADNE_ASSERT(w>=0); }
-};
-inline Positive<Decimal> cast_positive(Decimal const& w) { return Positive<Decimal>(w); }
-using PositiveDecimal = Positive<Decimal>;
-
-template<> class Bounds<Decimal> {
-    Decimal _l, _u;
-  public:
-    Bounds(Decimal w) : _l(w), _u(w) { }
-    template<ConvertibleTo<Decimal> X> Bounds(X const& x)
-        : Bounds(Decimal(x)) { }
-    Bounds(Decimal l, Decimal u) : _l(l), _u(u) { }
-    template<class X> requires Constructible<Decimal,X> Bounds(Bounds<X> const& x)
-        : Bounds(Decimal(x.lower_raw()),Decimal(x.upper_raw())) { }
-    operator ValidatedNumber() const;
-    Decimal lower() const { return _l; }
-    Decimal upper() const { return _u; }
-    Decimal lower_raw() const { return _l; }
-    Decimal upper_raw() const { return _u; }
-    friend OutputStream& operator<<(OutputStream& os, Bounds<Decimal> y) { return os << "[" << y._l << ":" << y._u << "]"; }
-};
-
-
-} // namespace Ariadne
-
-#endif
+/***************************************************************************
+ *            numeric/decimal.hpp
+ *
+ *  Copyright  2014-20  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+/*! \file numeric/decimal.hpp
+ *  \brief ExactTag decimal numbers, useful for user input.
+ */
+
+#ifndef ARIADNE_DECIMAL_HPP
+#define ARIADNE_DECIMAL_HPP
+
+#include <string>
+#include <iostream>
+#include "utility/typedefs.hpp"
+#include "numeric/number.decl.hpp"
+#include "numeric/integer.hpp"
+
+namespace Ariadne {
+
+//! \ingroup NumericModule
+//! \brief A decimal number.
+//! \sa Integer, Dyadic, Rational, Real
+class Decimal
+{
+  public:
+    static const Integer _ten;
+    Integer _p; Nat _q;
+  public:
+    typedef ExactTag Paradigm;
+    //! \brief Default constructor creates the number 0 (zero).
+    Decimal();
+    //! \brief Construct the number p/10^q.
+    explicit Decimal(Integer p, Nat q);
+    explicit Decimal(Integer p, Int q) = delete;
+    //! \brief Construct from a builtin integral type.
+    template<BuiltinIntegral N> Decimal(N n);
+    //! \brief Construct from a double-precision floating-point number representation.
+    explicit Decimal(double d);
+    //! \brief Construct from a string representation.
+    explicit Decimal(String const&);
+    //! \brief Convert from a dyadic.
+    Decimal(Dyadic const&);
+    //! \brief Convert to a rational number.
+    operator Rational () const;
+    //! \brief Convert to an generic number.
+    operator ExactNumber () const;
+    //! \brief A string literal
+    String literal() const;
+
+    //! \name Arithmetic operators
+    //!@{
+    friend Decimal operator+(Decimal const& d); //!< Unary plus \a +d.
+    friend Decimal operator-(Decimal const& d); //!< Unary minus \a -d.
+    friend Decimal operator+(Decimal const& d1, Decimal const& d2); //!< Plus \a d1+d2.
+    friend Decimal operator-(Decimal const& d1, Decimal const& d2); //!< Minus \a d1-d2.
+    friend Decimal operator*(Decimal const& d1, Decimal const& d2); //!< Times \a d1*d2.
+    friend Rational operator/(Decimal const& d1, Decimal const& d2); //!< Divides \a d1/d2, yielding a rational.
+    friend Decimal& operator+=(Decimal& d1, Decimal const& d2); //!< Inplace plus \a d1:=d1+d2.
+    //!@}
+
+    //!@{
+    //! \name Comparison operators
+    friend Boolean operator==(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::EQUAL; } //!< <p/>
+    friend Boolean operator!=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::EQUAL; } //!< <p/>
+    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::GREATER; } //!< <p/>
+    friend Boolean operator>=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::LESS; } //!< <p/>
+    friend Boolean operator< (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::LESS; } //!< <p/>
+    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::GREATER; } //!< <p/>
+    //!@}
+
+    //!@{
+    //! \name Arithmetic operations
+    friend Decimal nul(Decimal const& d); //!< Zero \a 0.
+    friend Decimal sqr(Decimal const& d); //!< Square \a d<sup>2</sup>.
+    friend Decimal hlf(Decimal const& d); //!< Half \a d/2.
+    //!@}
+
+    //!@{
+    //! \name Lattice operations
+    friend Decimal abs(Decimal const& d); //!< Absolute value \a |d|.
+    friend Decimal min(Decimal const& d1, Decimal const& d2); //!< Minimum \a d1∧d2.
+    friend Decimal max(Decimal const& d1, Decimal const& d2); //!< Maximum \a d1∨d2.
+    //!@}
+
+    //!@{
+    //! \name Comparison operations
+    friend Comparison cmp(Decimal const& d1, Decimal const& d2); //!< Comparison of two decimal values.
+    //!@}
+
+    //! \brief Write to an output stream.
+    friend OutputStream& operator<<(OutputStream& os, Decimal const& d);
+    //! \brief Construct from an integer literal.
+    friend Decimal operator"" _decimal (unsigned long long int n);
+    //! \brief Construct from a floating-point literal.
+    friend Decimal operator"" _decimal (long double dbl);
+    //! \brief Construct from a string literal.
+    friend Decimal operator"" _decimal (const char* str, std::size_t);
+
+    //! \brief Shorthand for operator""_decimal.
+    friend Decimal operator"" _dec (long double dbl);
+
+    //! \brief Alternative for operator""_decimal for use in Python interface.
+    friend Decimal dec_(long double dbl);
+
+    void canonicalize();
+};
+Decimal operator"" _dec (unsigned long long int n);
+Decimal operator"" _dec (long double dbl);
+Decimal operator"" _dec (const char* str, std::size_t);
+Decimal operator"" _decimal (unsigned long long int n);
+Decimal operator"" _decimal (long double dbl);
+Decimal operator"" _decimal (const char* str, std::size_t);
+
+template<BuiltinIntegral N> inline Decimal::Decimal(N n) : Decimal(n,0u) { }
+
+
+template<> class Positive<Decimal> : public Decimal {
+  public:
+    Positive() : Decimal() { }
+    template<BuiltinUnsignedIntegral M> Positive(M m) : Decimal(m) { }
+    Positive(int n) = delete;
+    explicit Positive(Decimal const& w) : Decimal(w) { ARIADNE_ASSERT(w>=0); }
+};
+inline Positive<Decimal> cast_positive(Decimal const& w) { return Positive<Decimal>(w); }
+using PositiveDecimal = Positive<Decimal>;
+
+template<> class Bounds<Decimal> {
+    Decimal _l, _u;
+  public:
+    Bounds(Decimal w) : _l(w), _u(w) { }
+    template<ConvertibleTo<Decimal> X> Bounds(X const& x)
+        : Bounds(Decimal(x)) { }
+    Bounds(Decimal l, Decimal u) : _l(l), _u(u) { }
+    template<class X> requires Constructible<Decimal,X> Bounds(Bounds<X> const& x)
+        : Bounds(Decimal(x.lower_raw()),Decimal(x.upper_raw())) { }
+    operator ValidatedNumber() const;
+    Decimal lower() const { return _l; }
+    Decimal upper() const { return _u; }
+    Decimal lower_raw() const { return _l; }
+    Decimal upper_raw() const { return _u; }
+    friend OutputStream& operator<<(OutputStream& os, Bounds<Decimal> y) { return os << "[" << y._l << ":" << y._u << "]"; }
+};
+
+
+} // namespace Ariadne
+
+#endif
diff --git a/source/numeric/dyadic.hpp b/source/numeric/dyadic.hpp
index da71220..cc0c138 100644
--- a/source/numeric/dyadic.hpp
+++ b/source/numeric/dyadic.hpp
@@ -1,429 +1,429 @@
-/***************************************************************************
- *            numeric/dyadic.hpp
- *
- *  Copyright  2008-20  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-/*! \file numeric/dyadic.hpp
- *  \brief Dyadic numbers.
- */
-
-#ifndef ARIADNE_DYADIC_HPP
-#define ARIADNE_DYADIC_HPP
-
-#include "numeric/gmp.hpp"
-
-#include <iostream> // For std::floor std::ceil etc
-#include <iomanip> // For std::setprecision
-#include <cmath> // For std::floor std::ceil etc
-#include <algorithm> // For std::max, std::min
-#include <limits> // For std::numeric_limits<double>
-
-#include "utility/handle.hpp"
-#include "utility/writable.hpp"
-
-#include "numeric/logical.hpp"
-#include "numeric/integer.hpp"
-#include "numeric/twoexp.hpp"
-#include "numeric/arithmetic.hpp"
-
-namespace Ariadne {
-
-class ExactDouble;
-class Dyadic;
-extern const Dyadic infty;
-
-class InfinityException : public std::runtime_error {
-    using std::runtime_error::runtime_error;
-};
-
-//! \ingroup NumericModule
-//! \brief A dyadic number of the form \f$p/2^q\f$ for integers \f$p\f$, \f$q\f$; equivalently, a number with a finite binary expansion.
-//! \sa Integer, Decimal, Rational, Float<DP>, Float<MP>
-//! \details The number \f$1.375\f$ is an example of a dyadic number, since it is equal to \f$1.375=11/8=11/2^3=1.101_2\f$. The number \f$0.1375\f$ is not a dyadic number, since \f$0.1375=11/80=11/(2^4\times 5)=0.0010\overline{0011}_2\f$, so the denominator is not a power of \f$2\f$, and its binary expansion is recurring.
-class Dyadic
-{
-    static Writer<Dyadic> _default_writer;
-  public:
-//    template<class W> requires BaseOf<WriterInterface<Dyadic>,W> static Void set_default_writer(W w) {
-//        _default_writer=std::make_shared<W>(std::move(w)); }
-//    static Void set_default_writer(Writer<Dyadic> w) { _default_writer=w.managed_pointer(); }
-    static Void set_default_writer(Writer<Dyadic> w) { _default_writer=w; }
-    static Writer<Dyadic> default_writer() { return _default_writer; }
-  public:
-    mpf_t _mpf;
-  public:
-    typedef ExactTag Paradigm;
-
-    //! \brief Construct a Dyadic number from a GNU mpf object.
-    explicit Dyadic (mpf_t mpf);
-    //! \brief Construct the Dyadic number \a p/2<sup>q</sup>.
-    Dyadic (Integer const& p, Nat q);
-    Dyadic (Integer const& p, Int q) = delete; // Can only construct a dyadic p/2^q for a positive (unsigned) value q, such at uint or Nat.
-    Dyadic (Integer const& p, Natural q);
-    //! \brief Destructor.
-    ~Dyadic();
-    //! \brief Default constructor creates the number 0 (zero).
-    Dyadic();
-    //! \brief Copy constructor.
-    Dyadic(Dyadic const& n);
-    Dyadic(Dyadic&& n);
-    //! \brief Assignment constructor.
-    Dyadic& operator=(Dyadic const& n);
-    Dyadic& operator=(Dyadic&& n);
-    //! \brief Convert from a built-in integer.
-    template<BuiltinIntegral N> Dyadic(N n);
-    //! \brief Convert from an exact double-precision number.
-    Dyadic(const ExactDouble& d);
-    //! \brief Convert from an integer.
-    Dyadic(const Integer& z);
-    //! \brief Convert from a power of two.
-    Dyadic(const TwoExp& t);
-    //! \brief Explicit construction from a built-in double-precision value.
-    //! \details Tests to ensure that the number is not 'accidentally' created from a rounded version of a string literal,
-    //! by comparing the input with it's single-precision approximation.
-    explicit Dyadic(double x);
-    //! \brief Construct from a string representation.
-    explicit Dyadic(String const&);
-    //! \brief Convert to a generic number.
-    operator ExactNumber () const;
-    //! \brief A representation of ±∞ or NaN.
-    static Dyadic inf(Sign sgn);
-    //! \brief A representation of +∞.
-    static Dyadic inf();
-    //! \brief A representation of NaN (not-a-number).
-    static Dyadic nan();
-
-    //! \brief The smallest integer \a p such that \a x=p/2<sup>q</sup>
-    Integer mantissa() const;
-    //! \brief The (negative) integer \a -q such that \a x=p/2<sup>q</sup>
-    Int exponent() const;
-    //! \brief A double-precision approximation.
-    double get_d() const;
-    mpf_t const& get_mpf() const;
-    //! \brief A string literal, comprising the exact value in decimal format.
-    String literal() const;
-    //! \brief Convert a floating-point literal to Dyadic i.e. long binary format.
-    friend Dyadic operator"" _bin(long double x);
-    //! \brief Convert a floating-point literal to Dyadic.
-    friend Dyadic operator"" _dyadic(long double x);
-    //! \brief Shorthand for operator""_dyadic.
-    friend Dyadic operator"" _dy(long double x);
-    //! \brief Alternative for operator""_dyadic for use in Python interface.
-    friend Dyadic dy_(long double x);
-
-    //!@{
-    //! \name Arithmetic operators
-    friend Dyadic operator+(Dyadic const& w) { return pos(w); } //!< <p/>
-    friend Dyadic operator-(Dyadic const& w) { return neg(w); } //!< <p/>
-    friend Dyadic operator+(Dyadic const& w1, Dyadic const& w2) { return add(w1,w2); } //!< <p/>
-    friend Dyadic operator-(Dyadic const& w1, Dyadic const& w2) { return sub(w1,w2); } //!< <p/>
-    friend Dyadic operator*(Dyadic const& w1, Dyadic const& w2) { return mul(w1,w2); } //!< <p/>
-    friend Dyadic& operator+=(Dyadic& w1, Dyadic const& w2) { return w1=add(w1,w2); } //!< <p/>
-    friend Dyadic& operator-=(Dyadic& w1, Dyadic const& w2) { return w1=sub(w1,w2); } //!< <p/>
-    friend Dyadic& operator*=(Dyadic& w1, Dyadic const& w2) { return w1=mul(w1,w2); } //!< <p/>
-    friend Rational operator/(Rational const&, Rational const&);
-    //!@}
-
-    //!@{
-    //! \name Comparison operators
-    friend Boolean operator==(Dyadic const& w1, Dyadic const& w2) { return eq(w1,w2); } //!< <p/>
-    friend Boolean operator!=(Dyadic const& w1, Dyadic const& w2) { return !eq(w1,w2); } //!< <p/>
-    friend Boolean operator<=(Dyadic const& w1, Dyadic const& w2) { return !lt(w2,w1); } //!< <p/>
-    friend Boolean operator>=(Dyadic const& w1, Dyadic const& w2) { return !lt(w1,w2); } //!< <p/>
-    friend Boolean operator< (Dyadic const& w1, Dyadic const& w2) { return lt(w1,w2); } //!< <p/>
-    friend Boolean operator> (Dyadic const& w1, Dyadic const& w2) { return lt(w2,w1); } //!< <p/>
-    //!@}
-
-    //!@{
-    //! \name Arithmetic operations
-    friend Dyadic nul(Dyadic const& w); //!< Zero \a 0.
-    friend Dyadic pos(Dyadic const& w); //!< %Positive \a +w.
-    friend Dyadic neg(Dyadic const& w); //!< Negative \a -w.
-    friend Positive<Dyadic> sqr(Dyadic const& w); //!< Square \a w<sup>2</sup>.
-    friend Dyadic hlf(Dyadic const& w); //!< Half \a w/2.
-
-    friend Dyadic add(Dyadic const& w1, Dyadic const& w2); //!< Add \a w1+w2.
-    friend Dyadic sub(Dyadic const& w1, Dyadic const& w2); //!< Subtract \a w1-w2.
-    friend Dyadic mul(Dyadic const& w1, Dyadic const& w2); //!< Multiply \a w1×w2.
-    friend Dyadic pow(Dyadic const& w, Nat m); //!< Power \a w<sup>m</sup> where \a  m is positive.
-    friend Rational pow(Dyadic const& w, Int n); //!< Power \a w<sup>n</sup>.
-    friend Dyadic fma(Dyadic const& w1, Dyadic const& w2, Dyadic const& w3); //!< Fused multiply-and-add \a w1×w2+w3.
-
-    friend Rational rec(Rational const&);
-    friend Rational div(Rational const&, Rational const&);
-    //!@}
-
-    friend Real sqrt(Real const&);
-    friend Real exp(Real const&);
-    friend Real log(Real const&);
-    friend Real sin(Real const&);
-    friend Real cos(Real const&);
-    friend Real tan(Real const&);
-    friend Real asin(Real const&);
-    friend Real acos(Real const&);
-    friend Real atan(Real const&);
-
-    //!@{
-    //! \name Lattice operations
-    friend Positive<Dyadic> abs(Dyadic const& w); //!< Absolute value \a |w|.
-    friend Dyadic min(Dyadic const& w1, Dyadic const& w2); //!< Minimum \a w1∧w2.
-//    friend Positive<Dyadic> min(Positive<Dyadic> const& w1, Positive<Dyadic> const& w2);
-    friend Dyadic max(Dyadic const& w1, Dyadic const& w2); //!< Maximum \a w1∨w2.
-//    friend Positive<Dyadic> max(Dyadic const& w1, Positive<Dyadic> const& w2);
-//    friend Positive<Dyadic> max(Positive<Dyadic> const& w1, Dyadic const& w2);
-//    friend Positive<Dyadic> max(Positive<Dyadic> const& w1, Positive<Dyadic> const& w2);
-    //!@}
-
-    //!@{
-    //! \name Rounding operations
-    friend Integer floor(Dyadic const& w); //!< Round down to the nearest lower integer.
-    friend Integer round(Dyadic const& w); //!< Round to the nearest integer. %Rounding of halves is implementation-dependent.
-    friend Integer ceil(Dyadic const& w); //!< Round up to the nearest higher integer.
-    //!@}
-
-    //!@{
-    //! \name Comparison operations
-    friend Sign sgn(Dyadic const& w); //!< The sign of \a w.
-    friend Comparison cmp(Dyadic const& w1, Dyadic const& w2); //!< Compares which of \a w1 and \a w2 is larger.
-    friend Boolean eq(Dyadic const& w1, Dyadic const& w2); //!< Tests if \a w1 is equal to \a w2.
-    friend Boolean lt(Dyadic const& w1, Dyadic const& w2); //!< Tests if \a w1 is less than \a w2.
-    //!@}
-
-    //!@{
-    //! \name Special value tests
-    friend Bool is_nan(Dyadic const& w); //!< Tests whether \a w is NaN (not-a-number).
-    friend Bool is_inf(Dyadic const& w); //!< Tests whether \a w is ±∞.
-    friend Bool is_finite(Dyadic const& w); //!< Tests whether \a w is finite.
-    friend Bool is_zero(Dyadic const& w); //!< Tests whether \a w is zero.
-    //!@}
-
-    //!@{
-    //! \name Input/output operations
-    friend OutputStream& operator<<(OutputStream& os, Dyadic const& w); //!< Write to an output stream.
-    //!@}
-};
-
-class DecimalWriter : public WriterInterface<Dyadic> {
-    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
-};
-class ScientificWriter : public WriterInterface<Dyadic> {
-    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
-};
-class FractionWriter : public WriterInterface<Dyadic> {
-    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
-};
-template<> class RepresentationWriter<Dyadic> : public WriterInterface<Dyadic> {
-    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
-};
-
-
-template<BuiltinIntegral N> inline Dyadic::Dyadic(N n) : Dyadic(Integer(n)) { }
-
-
-template<> class Positive<Dyadic> : public Dyadic {
-  public:
-    Positive() : Dyadic() { }
-    template<BuiltinUnsignedIntegral M> Positive(M m) : Dyadic(m) { }
-    Positive(int n) = delete;
-    explicit Positive(Dyadic const& w) : Dyadic(w) { ARIADNE_ASSERT(w>=0); }
-};
-inline Positive<Dyadic> cast_positive(Dyadic const& w) { return Positive<Dyadic>(w); }
-
-using PositiveDyadic = Positive<Dyadic>;
-
-//! \relates Dyadic
-//! \name Type synonyms
-//!@{
-//! \ingroup NumericModule
-using DyadicBounds = Bounds<Dyadic>; //!< Alias for dyadic bounds on a number.
-using DyadicBall = Ball<Dyadic,Dyadic>; //!< Alias for ball about a number with dyadic value and error.
-using DyadicUpperBound = UpperBound<Dyadic>; //!< Alias for dyadic upper bound for a number.
-using DyadicLowerBound = LowerBound<Dyadic>; //!< Alias for dyadic lower bound for a number.
-using DyadicApproximation = Approximation<Dyadic>; //!< Alias for dyadic approximateion to a number.
-
-using PositiveDyadicApproximation = Positive<Approximation<Dyadic>>; //!< <p/>
-using PositiveDyadicLowerBound = Positive<LowerBound<Dyadic>>; //!< <p/>
-using PositiveDyadicUpperBound = Positive<UpperBound<Dyadic>>; //!< <p/>
-using PositiveDyadicBounds = Positive<Bounds<Dyadic>>; //!< <p/>
-//!@}
-
-template<> class Bounds<Dyadic> {
-    Dyadic _l, _u;
-  public:
-    typedef ValidatedTag Paradigm;
-    Bounds(Dyadic w) : _l(w), _u(w) { }
-    template<ConvertibleTo<Dyadic> X> Bounds(X const& x)
-        : Bounds(Dyadic(x)) { }
-    Bounds(Dyadic l, Dyadic u) : _l(l), _u(u) { }
-    template<class X> requires Constructible<Dyadic,X> Bounds(Bounds<X> const& x)
-        : Bounds(Dyadic(x.lower_raw()),Dyadic(x.upper_raw())) { }
-    operator ValidatedNumber() const;
-    Bounds<Dyadic> pm(Dyadic e) { return Bounds<Dyadic>(_l-e,_u+e); }
-    Dyadic lower() const { return _l; }
-    Dyadic upper() const { return _u; }
-    Dyadic lower_raw() const { return _l; }
-    Dyadic upper_raw() const { return _u; }
-    Bounds<FloatDP> get(DoublePrecision pr) const;
-    Bounds<FloatMP> get(MultiplePrecision pr) const;
-    friend Bounds<Dyadic> operator+(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(+w._l,w._u); }
-    friend Bounds<Dyadic> operator-(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(-w._u,-w._l); }
-    friend Bounds<Dyadic> operator+(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return Bounds<Dyadic>(w1._l+w2._l,w1._u+w2._u); }
-    friend Bounds<Dyadic> operator-(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return Bounds<Dyadic>(w1._l-w2._u,w1._u-w2._l); }
-    friend Bounds<Dyadic> operator*(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2);
-    friend Bounds<Rational> operator/(Bounds<Rational> const& w1, Bounds<Rational> const& w2);
-    friend Bounds<Dyadic> add(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return Bounds<Dyadic>(w1._l+w2._l,w1._u+w2._u); }
-    friend Bounds<Dyadic> sub(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return Bounds<Dyadic>(w1._l-w2._u,w1._u-w2._l); }
-    friend Bounds<Dyadic> mul(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2);
-    friend Bounds<Rational> div(Bounds<Rational> const& w1, Bounds<Rational> const& w2);
-    friend Bounds<Dyadic> pow(Bounds<Dyadic> const& w, Nat m);
-    friend Bounds<Dyadic> pow(Bounds<Dyadic> const& w, Int m); // DEPRECATED m always positive
-    friend Bounds<Dyadic> nul(Bounds<Dyadic> const& w) {
-        return Bounds<Dyadic>(nul(w._l),nul(w._u)); }
-    friend Bounds<Dyadic> pos(Bounds<Dyadic> const& w) {
-        return Bounds<Dyadic>(pos(w._l),pos(w._u)); }
-    friend Bounds<Dyadic> neg(Bounds<Dyadic> const& w) {
-        return Bounds<Dyadic>(neg(w._u),neg(w._l)); }
-    friend Bounds<Dyadic> sqr(Bounds<Dyadic> const& w) {
-        if(w._l>0) { return Bounds<Dyadic>(sqr(w._l),sqr(w._u)); }
-        else if(w._u<0) { return Bounds<Dyadic>(sqr(w._u),sqr(w._l)); }
-        else { return Bounds<Dyadic>(nul(w._l),max(sqr(w._l),sqr(w._u))); } }
-    friend Bounds<Dyadic> hlf(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(hlf(w._l),hlf(w._u)); }
-    friend Bounds<Rational> rec(Bounds<Rational> const& w);
-    friend Bounds<Dyadic> abs(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(max(min(w._l,-w._u),0),max(-w._l,w._u)); }
-    friend Bounds<Dyadic> max(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) { return Bounds<Dyadic>(max(w1._l,w2._l),max(w1._u,w2._u)); }
-    friend Bounds<Dyadic> min(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) { return Bounds<Dyadic>(min(w1._l,w2._l),min(w1._u,w2._u)); }
-
-    friend ValidatedKleenean sgn(Bounds<Dyadic> const& w) {
-        if (w._l>0) { return true; } else if (w._u<0) { return false; } else { return indeterminate; } }
-    friend ValidatedKleenean operator==(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        if (w1._l>=w2._u && w1._u<=w2._l) { return true; } else if (w1._u< w2._l || w1._l> w2._u) { return false; } else { return indeterminate; } }
-    friend ValidatedKleenean operator!=(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        if (w1._u< w2._l || w1._l> w2._u) { return true; } else if (w1._l>=w2._u && w1._u<=w2._l) { return false; } else { return indeterminate; } }
-    friend ValidatedKleenean operator<=(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        if (w1._u<=w2._l) { return true; } else if (w1._l> w2._u) { return false; } else { return indeterminate; } }
-    friend ValidatedKleenean operator>=(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        if (w1._l>=w2._u) { return true; } else if (w1._u< w2._l) { return false; } else { return indeterminate; } }
-    friend ValidatedKleenean operator< (Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        if (w1._u< w2._l) { return true; } else if (w1._l>=w2._u) { return false; } else { return indeterminate; } }
-    friend ValidatedKleenean operator> (Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        if (w1._l> w2._u) { return true; } else if (w1._u<=w2._l) { return false; } else { return indeterminate; } }
-    friend Bool consistent(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return w1._l<=w2._u && w1._u >= w2._l; }
-    friend Boolean inconsistent(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return w1._l>w2._u || w1._u < w2._l; }
-    friend Boolean refines(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return w1._l>=w2._l and w1._u<=w2._u; }
-    friend Bounds<Dyadic> refinement(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return Bounds<Dyadic>(max(w1._l,w2._l),min(w1._u,w2._u)); }
-    friend Bounds<Dyadic> coarsening(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
-        return Bounds<Dyadic>(min(w1._l,w2._l),max(w1._u,w2._u)); }
-    friend OutputStream& operator<<(OutputStream& os, Bounds<Dyadic> y) { return os << "[" << y._l << ":" << y._u << "]"; }
-};
-
-
-template<> class Ball<Dyadic,Dyadic> {
-    Dyadic _v, _e;
-  public:
-    Ball(Dyadic w) : _v(w), _e(0) { }
-    Ball(Dyadic v, Dyadic e) : _v(v), _e(e) { }
-    template<class X, class XE> requires Constructible<Dyadic,X> and Constructible<Dyadic,XE>
-    Ball(Ball<X,XE> const& x)
-        : Ball(Dyadic(x.value_raw()),Dyadic(x.error_raw())) { }
-    explicit Ball(Bounds<Dyadic> const& w) : _v(hlf(w.lower()+w.upper())), _e(hlf(w.upper()-w.lower())) { }
-    explicit operator Bounds<Dyadic>() const { return Bounds<Dyadic>(_v-_e,_v+_e); }
-    operator ValidatedNumber() const;
-    Dyadic value() const { return _v; }
-    Dyadic error() const { return _e; }
-    Dyadic value_raw() const { return _v; }
-    Dyadic error_raw() const { return _e; }
-    friend DyadicBall operator+(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(w1._v+w2._v,w1._e+w2._e); }
-    friend DyadicBall operator-(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(w1._v-w2._v,w1._e+w2._e); }
-    friend DyadicBall operator*(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(w1._v*w2._v,abs(w1._v)*w2._e+w1._e*abs(w2._v)+w1._e*w2._e); }
-    friend DyadicBall abs(DyadicBall const& w) {
-        if (abs(w._v)>=w._e) { return DyadicBall(abs(w._v),w._e); } else { Dyadic av=hlf(max(w._e-w._v,w._v+w._e)); return DyadicBall(av,av); } }
-    friend ValidatedKleenean operator<(DyadicBall const& w1, DyadicBall const& w2) {
-        if (w1._v+w1._e<w2._v-w2._e) { return true; } else if (w1._v-w1._e >= w2._v+w2._e) { return false; } else { return indeterminate; } }
-    friend Boolean inconsistent(DyadicBall const& w1, DyadicBall const& w2) { return abs(w1._v-w2._v) > w1._e+w2._e; }
-    friend Boolean refines(DyadicBall const& w1, DyadicBall const& w2) { return abs(w1._v-w2._v)+w1._e <= w2._e; }
-    friend DyadicBall refinement(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(refinement(DyadicBounds(w1),DyadicBounds(w2))); }
-    friend DyadicBall coarsening(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(coarsening(DyadicBounds(w1),DyadicBounds(w2))); }
-    friend OutputStream& operator<<(OutputStream& os, DyadicBall y) { return os << "[" << y._v << ":" << y._e << "]"; }
-};
-
-template<> class LowerBound<Dyadic> {
-    Dyadic _l;
-  public:
-    LowerBound(Dyadic l) : _l(l) { }
-    LowerBound(Bounds<Dyadic> lu) : _l(lu.lower_raw()) { }
-    LowerBound(LowerBound<FloatDP> const& x);
-    LowerBound(LowerBound<FloatMP> const& x);
-    Dyadic raw() const { return _l; }
-    LowerBound<FloatDP> get(DoublePrecision pr) const;
-    LowerBound<FloatMP> get(MultiplePrecision pr) const;
-    friend OutputStream& operator<<(OutputStream& os, LowerBound<Dyadic> const& y) { return os << y._l << ":"; }
-};
-
-template<> class UpperBound<Dyadic> {
-    Dyadic _u;
-  public:
-    explicit UpperBound(Dyadic u) : _u(u) { }
-    UpperBound(Bounds<Dyadic> lu) : _u(lu.upper_raw()) { }
-    UpperBound(UpperBound<FloatDP> const& x);
-    UpperBound(UpperBound<FloatMP> const& x);
-    Dyadic raw() const { return _u; }
-    UpperBound<FloatDP> get(DoublePrecision pr) const;
-    UpperBound<FloatMP> get(MultiplePrecision pr) const;
-    friend OutputStream& operator<<(OutputStream& os, UpperBound<Dyadic> const& y) { return os << ":" << y._u; }
-};
-
-template<> class Approximation<Dyadic> {
-    Dyadic _a;
-  public:
-    Approximation(Dyadic a) : _a(a) { }
-    Approximation(Approximation<FloatDP> const& x);
-    Approximation(Approximation<FloatMP> const& x);
-    Dyadic raw() const { return _a; }
-    Approximation<FloatDP> get(DoublePrecision pr) const;
-    Approximation<FloatMP> get(MultiplePrecision pr) const;
-    friend OutputStream& operator<<(OutputStream& os, Approximation<Dyadic> const& y);
-};
-
-template<> class Positive<Bounds<Dyadic>> : public Bounds<Dyadic> { public: Positive(Bounds<Dyadic> w) : Bounds<Dyadic>(w) { }; };
-template<> class Positive<LowerBound<Dyadic>> : public LowerBound<Dyadic> { public: Positive(LowerBound<Dyadic> w) : LowerBound<Dyadic>(w) { }; };
-template<> class Positive<UpperBound<Dyadic>> : public UpperBound<Dyadic> { public: Positive(UpperBound<Dyadic> w) : UpperBound<Dyadic>(w) { } ; };
-template<> class Positive<Approximation<Dyadic>> : public Approximation<Dyadic> { public: Positive(Approximation<Dyadic> w) : Approximation<Dyadic>(w) { } };
-
-inline Dyadic operator"" _dyadic(long double x) { return Dyadic(static_cast<double>(x)); }
-inline Dyadic operator"" _dy(long double x) { return operator"" _dyadic(x); }
-inline Dyadic operator"" _q2(long double x) { return operator"" _dyadic(x); }
-inline Dyadic operator"" _bin(long double x) { return operator"" _dyadic(x); }
-
-Comparison cmp(Dyadic const& x1, Dyadic const& x2);
-Dyadic make_dyadic(unsigned long long int n);
-
-} // namespace Ariadne
-
-#endif
+/***************************************************************************
+ *            numeric/dyadic.hpp
+ *
+ *  Copyright  2008-20  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+/*! \file numeric/dyadic.hpp
+ *  \brief Dyadic numbers.
+ */
+
+#ifndef ARIADNE_DYADIC_HPP
+#define ARIADNE_DYADIC_HPP
+
+#include "numeric/gmp.hpp"
+
+#include <iostream> // For std::floor std::ceil etc
+#include <iomanip> // For std::setprecision
+#include <cmath> // For std::floor std::ceil etc
+#include <algorithm> // For std::max, std::min
+#include <limits> // For std::numeric_limits<double>
+
+#include "utility/handle.hpp"
+#include "utility/writable.hpp"
+
+#include "numeric/logical.hpp"
+#include "numeric/integer.hpp"
+#include "numeric/twoexp.hpp"
+#include "numeric/arithmetic.hpp"
+
+namespace Ariadne {
+
+class ExactDouble;
+class Dyadic;
+extern const Dyadic infty;
+
+class InfinityException : public std::runtime_error {
+    using std::runtime_error::runtime_error;
+};
+
+//! \ingroup NumericModule
+//! \brief A dyadic number of the form \f$p/2^q\f$ for integers \f$p\f$, \f$q\f$; equivalently, a number with a finite binary expansion.
+//! \sa Integer, Decimal, Rational, Float<DP>, Float<MP>
+//! \details The number \f$1.375\f$ is an example of a dyadic number, since it is equal to \f$1.375=11/8=11/2^3=1.101_2\f$. The number \f$0.1375\f$ is not a dyadic number, since \f$0.1375=11/80=11/(2^4\times 5)=0.0010\overline{0011}_2\f$, so the denominator is not a power of \f$2\f$, and its binary expansion is recurring.
+class Dyadic
+{
+    static Writer<Dyadic> _default_writer;
+  public:
+//    template<class W> requires BaseOf<WriterInterface<Dyadic>,W> static Void set_default_writer(W w) {
+//        _default_writer=std::make_shared<W>(std::move(w)); }
+//    static Void set_default_writer(Writer<Dyadic> w) { _default_writer=w.managed_pointer(); }
+    static Void set_default_writer(Writer<Dyadic> w) { _default_writer=w; }
+    static Writer<Dyadic> default_writer() { return _default_writer; }
+  public:
+    mpf_t _mpf;
+  public:
+    typedef ExactTag Paradigm;
+
+    //! \brief Construct a Dyadic number from a GNU mpf object.
+    explicit Dyadic (mpf_t mpf);
+    //! \brief Construct the Dyadic number \a p/2<sup>q</sup>.
+    Dyadic (Integer const& p, Nat q);
+    Dyadic (Integer const& p, Int q) = delete; // Can only construct a dyadic p/2^q for a positive (unsigned) value q, such at uint or Nat.
+    Dyadic (Integer const& p, Natural q);
+    //! \brief Destructor.
+    ~Dyadic();
+    //! \brief Default constructor creates the number 0 (zero).
+    Dyadic();
+    //! \brief Copy constructor.
+    Dyadic(Dyadic const& n);
+    Dyadic(Dyadic&& n);
+    //! \brief Assignment constructor.
+    Dyadic& operator=(Dyadic const& n);
+    Dyadic& operator=(Dyadic&& n);
+    //! \brief Convert from a built-in integer.
+    template<BuiltinIntegral N> Dyadic(N n);
+    //! \brief Convert from an exact double-precision number.
+    Dyadic(const ExactDouble& d);
+    //! \brief Convert from an integer.
+    Dyadic(const Integer& z);
+    //! \brief Convert from a power of two.
+    Dyadic(const TwoExp& t);
+    //! \brief Explicit construction from a built-in double-precision value.
+    //! \details Tests to ensure that the number is not 'accidentally' created from a rounded version of a string literal,
+    //! by comparing the input with it's single-precision approximation.
+    explicit Dyadic(double x);
+    //! \brief Construct from a string representation.
+    explicit Dyadic(String const&);
+    //! \brief Convert to a generic number.
+    operator ExactNumber () const;
+    //! \brief A representation of ±∞ or NaN.
+    static Dyadic inf(Sign sgn);
+    //! \brief A representation of +∞.
+    static Dyadic inf();
+    //! \brief A representation of NaN (not-a-number).
+    static Dyadic nan();
+
+    //! \brief The smallest integer \a p such that \a x=p/2<sup>q</sup>
+    Integer mantissa() const;
+    //! \brief The (negative) integer \a -q such that \a x=p/2<sup>q</sup>
+    Int exponent() const;
+    //! \brief A double-precision approximation.
+    double get_d() const;
+    mpf_t const& get_mpf() const;
+    //! \brief A string literal, comprising the exact value in decimal format.
+    String literal() const;
+    //! \brief Convert a floating-point literal to Dyadic i.e. long binary format.
+    friend Dyadic operator"" _bin(long double x);
+    //! \brief Convert a floating-point literal to Dyadic.
+    friend Dyadic operator"" _dyadic(long double x);
+    //! \brief Shorthand for operator""_dyadic.
+    friend Dyadic operator"" _dy(long double x);
+    //! \brief Alternative for operator""_dyadic for use in Python interface.
+    friend Dyadic dy_(long double x);
+
+    //!@{
+    //! \name Arithmetic operators
+    friend Dyadic operator+(Dyadic const& w) { return pos(w); } //!< <p/>
+    friend Dyadic operator-(Dyadic const& w) { return neg(w); } //!< <p/>
+    friend Dyadic operator+(Dyadic const& w1, Dyadic const& w2) { return add(w1,w2); } //!< <p/>
+    friend Dyadic operator-(Dyadic const& w1, Dyadic const& w2) { return sub(w1,w2); } //!< <p/>
+    friend Dyadic operator*(Dyadic const& w1, Dyadic const& w2) { return mul(w1,w2); } //!< <p/>
+    friend Dyadic& operator+=(Dyadic& w1, Dyadic const& w2) { return w1=add(w1,w2); } //!< <p/>
+    friend Dyadic& operator-=(Dyadic& w1, Dyadic const& w2) { return w1=sub(w1,w2); } //!< <p/>
+    friend Dyadic& operator*=(Dyadic& w1, Dyadic const& w2) { return w1=mul(w1,w2); } //!< <p/>
+    friend Rational operator/(Rational const&, Rational const&);
+    //!@}
+
+    //!@{
+    //! \name Comparison operators
+    friend Boolean operator==(Dyadic const& w1, Dyadic const& w2) { return eq(w1,w2); } //!< <p/>
+    friend Boolean operator!=(Dyadic const& w1, Dyadic const& w2) { return !eq(w1,w2); } //!< <p/>
+    friend Boolean operator<=(Dyadic const& w1, Dyadic const& w2) { return !lt(w2,w1); } //!< <p/>
+    friend Boolean operator>=(Dyadic const& w1, Dyadic const& w2) { return !lt(w1,w2); } //!< <p/>
+    friend Boolean operator< (Dyadic const& w1, Dyadic const& w2) { return lt(w1,w2); } //!< <p/>
+    friend Boolean operator> (Dyadic const& w1, Dyadic const& w2) { return lt(w2,w1); } //!< <p/>
+    //!@}
+
+    //!@{
+    //! \name Arithmetic operations
+    friend Dyadic nul(Dyadic const& w); //!< Zero \a 0.
+    friend Dyadic pos(Dyadic const& w); //!< %Positive \a +w.
+    friend Dyadic neg(Dyadic const& w); //!< Negative \a -w.
+    friend Positive<Dyadic> sqr(Dyadic const& w); //!< Square \a w<sup>2</sup>.
+    friend Dyadic hlf(Dyadic const& w); //!< Half \a w/2.
+
+    friend Dyadic add(Dyadic const& w1, Dyadic const& w2); //!< Add \a w1+w2.
+    friend Dyadic sub(Dyadic const& w1, Dyadic const& w2); //!< Subtract \a w1-w2.
+    friend Dyadic mul(Dyadic const& w1, Dyadic const& w2); //!< Multiply \a w1×w2.
+    friend Dyadic pow(Dyadic const& w, Nat m); //!< Power \a w<sup>m</sup> where \a  m is positive.
+    friend Rational pow(Dyadic const& w, Int n); //!< Power \a w<sup>n</sup>.
+    friend Dyadic fma(Dyadic const& w1, Dyadic const& w2, Dyadic const& w3); //!< Fused multiply-and-add \a w1×w2+w3.
+
+    friend Rational rec(Rational const&);
+    friend Rational div(Rational const&, Rational const&);
+    //!@}
+
+    friend Real sqrt(Real const&);
+    friend Real exp(Real const&);
+    friend Real log(Real const&);
+    friend Real sin(Real const&);
+    friend Real cos(Real const&);
+    friend Real tan(Real const&);
+    friend Real asin(Real const&);
+    friend Real acos(Real const&);
+    friend Real atan(Real const&);
+
+    //!@{
+    //! \name Lattice operations
+    friend Positive<Dyadic> abs(Dyadic const& w); //!< Absolute value \a |w|.
+    friend Dyadic min(Dyadic const& w1, Dyadic const& w2); //!< Minimum \a w1∧w2.
+//    friend Positive<Dyadic> min(Positive<Dyadic> const& w1, Positive<Dyadic> const& w2);
+    friend Dyadic max(Dyadic const& w1, Dyadic const& w2); //!< Maximum \a w1∨w2.
+//    friend Positive<Dyadic> max(Dyadic const& w1, Positive<Dyadic> const& w2);
+//    friend Positive<Dyadic> max(Positive<Dyadic> const& w1, Dyadic const& w2);
+//    friend Positive<Dyadic> max(Positive<Dyadic> const& w1, Positive<Dyadic> const& w2);
+    //!@}
+
+    //!@{
+    //! \name Rounding operations
+    friend Integer floor(Dyadic const& w); //!< Round down to the nearest lower integer.
+    friend Integer round(Dyadic const& w); //!< Round to the nearest integer. %Rounding of halves is implementation-dependent.
+    friend Integer ceil(Dyadic const& w); //!< Round up to the nearest higher integer.
+    //!@}
+
+    //!@{
+    //! \name Comparison operations
+    friend Sign sgn(Dyadic const& w); //!< The sign of \a w.
+    friend Comparison cmp(Dyadic const& w1, Dyadic const& w2); //!< Compares which of \a w1 and \a w2 is larger.
+    friend Boolean eq(Dyadic const& w1, Dyadic const& w2); //!< Tests if \a w1 is equal to \a w2.
+    friend Boolean lt(Dyadic const& w1, Dyadic const& w2); //!< Tests if \a w1 is less than \a w2.
+    //!@}
+
+    //!@{
+    //! \name Special value tests
+    friend Bool is_nan(Dyadic const& w); //!< Tests whether \a w is NaN (not-a-number).
+    friend Bool is_inf(Dyadic const& w); //!< Tests whether \a w is ±∞.
+    friend Bool is_finite(Dyadic const& w); //!< Tests whether \a w is finite.
+    friend Bool is_zero(Dyadic const& w); //!< Tests whether \a w is zero.
+    //!@}
+
+    //!@{
+    //! \name Input/output operations
+    friend OutputStream& operator<<(OutputStream& os, Dyadic const& w); //!< Write to an output stream.
+    //!@}
+};
+
+class DecimalWriter : public WriterInterface<Dyadic> {
+    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
+};
+class ScientificWriter : public WriterInterface<Dyadic> {
+    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
+};
+class FractionWriter : public WriterInterface<Dyadic> {
+    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
+};
+template<> class RepresentationWriter<Dyadic> : public WriterInterface<Dyadic> {
+    virtual OutputStream& _write(OutputStream& os, Dyadic const& w) const final override;
+};
+
+
+template<BuiltinIntegral N> inline Dyadic::Dyadic(N n) : Dyadic(Integer(n)) { }
+
+
+template<> class Positive<Dyadic> : public Dyadic {
+  public:
+    Positive() : Dyadic() { }
+    template<BuiltinUnsignedIntegral M> Positive(M m) : Dyadic(m) { }
+    Positive(int n) = delete;
+    explicit Positive(Dyadic const& w) : Dyadic(w) { ARIADNE_ASSERT(w>=0); }
+};
+inline Positive<Dyadic> cast_positive(Dyadic const& w) { return Positive<Dyadic>(w); }
+
+using PositiveDyadic = Positive<Dyadic>;
+
+//! \relates Dyadic
+//! \name Type synonyms
+//!@{
+//! \ingroup NumericModule
+using DyadicBounds = Bounds<Dyadic>; //!< Alias for dyadic bounds on a number.
+using DyadicBall = Ball<Dyadic,Dyadic>; //!< Alias for ball about a number with dyadic value and error.
+using DyadicUpperBound = UpperBound<Dyadic>; //!< Alias for dyadic upper bound for a number.
+using DyadicLowerBound = LowerBound<Dyadic>; //!< Alias for dyadic lower bound for a number.
+using DyadicApproximation = Approximation<Dyadic>; //!< Alias for dyadic approximateion to a number.
+
+using PositiveDyadicApproximation = Positive<Approximation<Dyadic>>; //!< <p/>
+using PositiveDyadicLowerBound = Positive<LowerBound<Dyadic>>; //!< <p/>
+using PositiveDyadicUpperBound = Positive<UpperBound<Dyadic>>; //!< <p/>
+using PositiveDyadicBounds = Positive<Bounds<Dyadic>>; //!< <p/>
+//!@}
+
+template<> class Bounds<Dyadic> {
+    Dyadic _l, _u;
+  public:
+    typedef ValidatedTag Paradigm;
+    Bounds(Dyadic w) : _l(w), _u(w) { }
+    template<ConvertibleTo<Dyadic> X> Bounds(X const& x)
+        : Bounds(Dyadic(x)) { }
+    Bounds(Dyadic l, Dyadic u) : _l(l), _u(u) { }
+    template<class X> requires Constructible<Dyadic,X> Bounds(Bounds<X> const& x)
+        : Bounds(Dyadic(x.lower_raw()),Dyadic(x.upper_raw())) { }
+    operator ValidatedNumber() const;
+    Bounds<Dyadic> pm(Dyadic e) { return Bounds<Dyadic>(_l-e,_u+e); }
+    Dyadic lower() const { return _l; }
+    Dyadic upper() const { return _u; }
+    Dyadic lower_raw() const { return _l; }
+    Dyadic upper_raw() const { return _u; }
+    Bounds<FloatDP> get(DoublePrecision pr) const;
+    Bounds<FloatMP> get(MultiplePrecision pr) const;
+    friend Bounds<Dyadic> operator+(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(+w._l,w._u); }
+    friend Bounds<Dyadic> operator-(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(-w._u,-w._l); }
+    friend Bounds<Dyadic> operator+(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return Bounds<Dyadic>(w1._l+w2._l,w1._u+w2._u); }
+    friend Bounds<Dyadic> operator-(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return Bounds<Dyadic>(w1._l-w2._u,w1._u-w2._l); }
+    friend Bounds<Dyadic> operator*(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2);
+    friend Bounds<Rational> operator/(Bounds<Rational> const& w1, Bounds<Rational> const& w2);
+    friend Bounds<Dyadic> add(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return Bounds<Dyadic>(w1._l+w2._l,w1._u+w2._u); }
+    friend Bounds<Dyadic> sub(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return Bounds<Dyadic>(w1._l-w2._u,w1._u-w2._l); }
+    friend Bounds<Dyadic> mul(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2);
+    friend Bounds<Rational> div(Bounds<Rational> const& w1, Bounds<Rational> const& w2);
+    friend Bounds<Dyadic> pow(Bounds<Dyadic> const& w, Nat m);
+    friend Bounds<Dyadic> pow(Bounds<Dyadic> const& w, Int m); // DEPRECATED m always positive
+    friend Bounds<Dyadic> nul(Bounds<Dyadic> const& w) {
+        return Bounds<Dyadic>(nul(w._l),nul(w._u)); }
+    friend Bounds<Dyadic> pos(Bounds<Dyadic> const& w) {
+        return Bounds<Dyadic>(pos(w._l),pos(w._u)); }
+    friend Bounds<Dyadic> neg(Bounds<Dyadic> const& w) {
+        return Bounds<Dyadic>(neg(w._u),neg(w._l)); }
+    friend Bounds<Dyadic> sqr(Bounds<Dyadic> const& w) {
+        if(w._l>0) { return Bounds<Dyadic>(sqr(w._l),sqr(w._u)); }
+        else if(w._u<0) { return Bounds<Dyadic>(sqr(w._u),sqr(w._l)); }
+        else { return Bounds<Dyadic>(nul(w._l),max(sqr(w._l),sqr(w._u))); } }
+    friend Bounds<Dyadic> hlf(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(hlf(w._l),hlf(w._u)); }
+    friend Bounds<Rational> rec(Bounds<Rational> const& w);
+    friend Bounds<Dyadic> abs(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(max(min(w._l,-w._u),0),max(-w._l,w._u)); }
+    friend Bounds<Dyadic> max(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) { return Bounds<Dyadic>(max(w1._l,w2._l),max(w1._u,w2._u)); }
+    friend Bounds<Dyadic> min(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) { return Bounds<Dyadic>(min(w1._l,w2._l),min(w1._u,w2._u)); }
+
+    friend ValidatedKleenean sgn(Bounds<Dyadic> const& w) {
+        if (w._l>0) { return true; } else if (w._u<0) { return false; } else { return indeterminate; } }
+    friend ValidatedKleenean operator==(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        if (w1._l>=w2._u && w1._u<=w2._l) { return true; } else if (w1._u< w2._l || w1._l> w2._u) { return false; } else { return indeterminate; } }
+    friend ValidatedKleenean operator!=(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        if (w1._u< w2._l || w1._l> w2._u) { return true; } else if (w1._l>=w2._u && w1._u<=w2._l) { return false; } else { return indeterminate; } }
+    friend ValidatedKleenean operator<=(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        if (w1._u<=w2._l) { return true; } else if (w1._l> w2._u) { return false; } else { return indeterminate; } }
+    friend ValidatedKleenean operator>=(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        if (w1._l>=w2._u) { return true; } else if (w1._u< w2._l) { return false; } else { return indeterminate; } }
+    friend ValidatedKleenean operator< (Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        if (w1._u< w2._l) { return true; } else if (w1._l>=w2._u) { return false; } else { return indeterminate; } }
+    friend ValidatedKleenean operator> (Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        if (w1._l> w2._u) { return true; } else if (w1._u<=w2._l) { return false; } else { return indeterminate; } }
+    friend Bool consistent(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return w1._l<=w2._u && w1._u >= w2._l; }
+    friend Boolean inconsistent(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return w1._l>w2._u || w1._u < w2._l; }
+    friend Boolean refines(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return w1._l>=w2._l and w1._u<=w2._u; }
+    friend Bounds<Dyadic> refinement(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return Bounds<Dyadic>(max(w1._l,w2._l),min(w1._u,w2._u)); }
+    friend Bounds<Dyadic> coarsening(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) {
+        return Bounds<Dyadic>(min(w1._l,w2._l),max(w1._u,w2._u)); }
+    friend OutputStream& operator<<(OutputStream& os, Bounds<Dyadic> y) { return os << "[" << y._l << ":" << y._u << "]"; }
+};
+
+
+template<> class Ball<Dyadic,Dyadic> {
+    Dyadic _v, _e;
+  public:
+    Ball(Dyadic w) : _v(w), _e(0) { }
+    Ball(Dyadic v, Dyadic e) : _v(v), _e(e) { }
+    template<class X, class XE> requires Constructible<Dyadic,X> and Constructible<Dyadic,XE>
+    Ball(Ball<X,XE> const& x)
+        : Ball(Dyadic(x.value_raw()),Dyadic(x.error_raw())) { }
+    explicit Ball(Bounds<Dyadic> const& w) : _v(hlf(w.lower()+w.upper())), _e(hlf(w.upper()-w.lower())) { }
+    explicit operator Bounds<Dyadic>() const { return Bounds<Dyadic>(_v-_e,_v+_e); }
+    operator ValidatedNumber() const;
+    Dyadic value() const { return _v; }
+    Dyadic error() const { return _e; }
+    Dyadic value_raw() const { return _v; }
+    Dyadic error_raw() const { return _e; }
+    friend DyadicBall operator+(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(w1._v+w2._v,w1._e+w2._e); }
+    friend DyadicBall operator-(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(w1._v-w2._v,w1._e+w2._e); }
+    friend DyadicBall operator*(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(w1._v*w2._v,abs(w1._v)*w2._e+w1._e*abs(w2._v)+w1._e*w2._e); }
+    friend DyadicBall abs(DyadicBall const& w) {
+        if (abs(w._v)>=w._e) { return DyadicBall(abs(w._v),w._e); } else { Dyadic av=hlf(max(w._e-w._v,w._v+w._e)); return DyadicBall(av,av); } }
+    friend ValidatedKleenean operator<(DyadicBall const& w1, DyadicBall const& w2) {
+        if (w1._v+w1._e<w2._v-w2._e) { return true; } else if (w1._v-w1._e >= w2._v+w2._e) { return false; } else { return indeterminate; } }
+    friend Boolean inconsistent(DyadicBall const& w1, DyadicBall const& w2) { return abs(w1._v-w2._v) > w1._e+w2._e; }
+    friend Boolean refines(DyadicBall const& w1, DyadicBall const& w2) { return abs(w1._v-w2._v)+w1._e <= w2._e; }
+    friend DyadicBall refinement(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(refinement(DyadicBounds(w1),DyadicBounds(w2))); }
+    friend DyadicBall coarsening(DyadicBall const& w1, DyadicBall const& w2) { return DyadicBall(coarsening(DyadicBounds(w1),DyadicBounds(w2))); }
+    friend OutputStream& operator<<(OutputStream& os, DyadicBall y) { return os << "[" << y._v << ":" << y._e << "]"; }
+};
+
+template<> class LowerBound<Dyadic> {
+    Dyadic _l;
+  public:
+    LowerBound(Dyadic l) : _l(l) { }
+    LowerBound(Bounds<Dyadic> lu) : _l(lu.lower_raw()) { }
+    LowerBound(LowerBound<FloatDP> const& x);
+    LowerBound(LowerBound<FloatMP> const& x);
+    Dyadic raw() const { return _l; }
+    LowerBound<FloatDP> get(DoublePrecision pr) const;
+    LowerBound<FloatMP> get(MultiplePrecision pr) const;
+    friend OutputStream& operator<<(OutputStream& os, LowerBound<Dyadic> const& y) { return os << y._l << ":"; }
+};
+
+template<> class UpperBound<Dyadic> {
+    Dyadic _u;
+  public:
+    explicit UpperBound(Dyadic u) : _u(u) { }
+    UpperBound(Bounds<Dyadic> lu) : _u(lu.upper_raw()) { }
+    UpperBound(UpperBound<FloatDP> const& x);
+    UpperBound(UpperBound<FloatMP> const& x);
+    Dyadic raw() const { return _u; }
+    UpperBound<FloatDP> get(DoublePrecision pr) const;
+    UpperBound<FloatMP> get(MultiplePrecision pr) const;
+    friend OutputStream& operator<<(OutputStream& os, UpperBound<Dyadic> const& y) { return os << ":" << y._u; }
+};
+
+template<> class Approximation<Dyadic> {
+    Dyadic _a;
+  public:
+    Approximation(Dyadic a) : _a(a) { }
+    Approximation(Approximation<FloatDP> const& x);
+    Approximation(Approximation<FloatMP> const& x);
+    Dyadic raw() const { return _a; }
+    Approximation<FloatDP> get(DoublePrecision pr) const;
+    Approximation<FloatMP> get(MultiplePrecision pr) const;
+    friend OutputStream& operator<<(OutputStream& os, Approximation<Dyadic> const& y);
+};
+
+template<> class Positive<Bounds<Dyadic>> : public Bounds<Dyadic> { public: Positive(Bounds<Dyadic> w) : Bounds<Dyadic>(w) { }; };
+template<> class Positive<LowerBound<Dyadic>> : public LowerBound<Dyadic> { public: Positive(LowerBound<Dyadic> w) : LowerBound<Dyadic>(w) { }; };
+template<> class Positive<UpperBound<Dyadic>> : public UpperBound<Dyadic> { public: Positive(UpperBound<Dyadic> w) : UpperBound<Dyadic>(w) { } ; };
+template<> class Positive<Approximation<Dyadic>> : public Approximation<Dyadic> { public: Positive(Approximation<Dyadic> w) : Approximation<Dyadic>(w) { } };
+
+inline Dyadic operator"" _dyadic(long double x) { return Dyadic(static_cast<double>(x)); }
+inline Dyadic operator"" _dy(long double x) { return operator"" _dyadic(x); }
+inline Dyadic operator"" _q2(long double x) { return operator"" _dyadic(x); }
+inline Dyadic operator"" _bin(long double x) { return operator"" _dyadic(x); }
+
+Comparison cmp(Dyadic const& x1, Dyadic const& x2);
+Dyadic make_dyadic(unsigned long long int n);
+
+} // namespace Ariadne
+
+#endif
-- 
2.43.0


From 7483851d42171a559fa03b1de5756850d849f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:43 +0000
Subject: [PATCH 58/63] fix: disjointness of a paving from a box it touches

---
 source/geometry/grid_paving.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index de5ac38..8f626db 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -1557,7 +1557,7 @@ ValidatedKleenean GridTreeSubpaving::_disjoint( const BinaryTreeNode* pCurrentNo
         } else {
             //The node is not a leaf and the intersection is possible so check the left sub-node
             theWord.push_back(false);
-            const ValidatedKleenean intersect_left = GridTreeSubpaving::_intersects( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
+            const ValidatedKleenean intersect_left = !GridTreeSubpaving::_disjoint( pCurrentNode->left_node(), theGrid, theExtent, theWord, theBoxType );
             theWord.pop_back();
 
             //
@@ -1573,7 +1573,7 @@ ValidatedKleenean GridTreeSubpaving::_disjoint( const BinaryTreeNode* pCurrentNo
             } else {
                 //If we still not sure/ or do not know then try to search further, i.e. check the right node
                 theWord.push_back(true);
-                const ValidatedKleenean intersect_right = GridTreeSubpaving::_intersects( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
+                const ValidatedKleenean intersect_right = !GridTreeSubpaving::_disjoint( pCurrentNode->right_node(), theGrid, theExtent, theWord, theBoxType );
                 theWord.pop_back();
                 if( definitely(intersect_right) ) {
                     //If we definitely have intersection for the right branch then answer is true
-- 
2.43.0


From fd5a887c4e19b71ccf3e4e8b1088e902dcfc0478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:43 +0000
Subject: [PATCH 59/63] fix: covering of a box which touches the border of the
 root cell of a paving

---
 source/geometry/grid_paving.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index 8f626db..92ab6ed 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -1346,15 +1346,16 @@ ValidatedLowerKleenean GridTreeSubpaving::covers( const ExactBoxType& theBoxType
 
     ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
 
-    Bool isASubSet = theBoxType.subset( root_cell().box() );
+    const ExactBoxType theWidenedBoxType = cast_exact_box(widen(theBoxType));
+    Bool isASubSet = theWidenedBoxType.subset( root_cell().box() );
     if( ! isASubSet ) {
-        //If the box is not covered by the cell corresponding to the root node
-        //of the set, then clearly theBoxType is not a subset of this set.
+        //If the box is not in the interior of the cell corresponding to the root node
+        //of the set, then clearly theBoxType is not in the interior of this set.
         return false;
     } else {
         //Otherwise, is theBoxType is possibly a subset then we try to see furhter
         BinaryWord pathCopy( root_cell().word() );
-        return GridTreeSubpaving::_superset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(widen(theBoxType)) );
+        return GridTreeSubpaving::_superset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theWidenedBoxType );
     }
 }
 
-- 
2.43.0


From 403237a0335590844dba1d6fb9cb9e289dec934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:36 +0000
Subject: [PATCH 60/63] fix: round the end of a time interval upwards in
 to_time_bounds

---
 source/geometry/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.hpp b/source/geometry/interval.hpp
index 6e78495..80a3a51 100644
--- a/source/geometry/interval.hpp
+++ b/source/geometry/interval.hpp
@@ -437,7 +437,7 @@ Interval<FloatDP> widen_domain(Interval<FloatDPUpperBound> const& ivl);
 Interval<FloatDP> approximate_domain(Interval<FloatDPUpperBound> const& ivl);
 
 inline Interval<FloatDP> to_time_bounds(Dyadic const& tl, Dyadic const& tu) {
-    return Interval<FloatDP>(FloatDPLowerBound(tl,DoublePrecision()).raw(),FloatDPLowerBound(tu,DoublePrecision()).raw()); }
+    return Interval<FloatDP>(FloatDPLowerBound(tl,DoublePrecision()).raw(),FloatDPUpperBound(tu,DoublePrecision()).raw()); }
 inline Interval<FloatDP> to_time_bounds(Interval<Dyadic> const& ivl) {
     return to_time_bounds(ivl.lower_bound(),ivl.upper_bound()); }
 
-- 
2.43.0


From b589491afed7e1dbffdf8a3a3b6e5e8cb90f3784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:34 +0000
Subject: [PATCH 61/63] fix: report an unknown rather than no solution if none
 could be verified

---
 source/solvers/solver.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/solvers/solver.cpp b/source/solvers/solver.cpp
index 8368e43..2aff68c 100644
--- a/source/solvers/solver.cpp
+++ b/source/solvers/solver.cpp
@@ -143,7 +143,15 @@ auto SolverBase::solve(const ValidatedVectorMultivariateFunction& f,
     -> Vector<ValidatedNumericType>
 {
     Set< Vector<ValidatedNumericType> > r = this->solve_all(f,bx);
-    if(r.size()==0u) { ARIADNE_THROW(NoSolutionException,"SolverBase::solve","no solution in solve("<<f<<","<<bx<<")"); }
+    if(r.size()==0u) {
+        // NOTE: Boxes for which a solution can be neither verified nor falsified are omitted from the result of solve_all
+        const Vector<ValidatedNumericType> z(f.result_size(),dp);
+        if(inconsistent(f.evaluate(cast_singleton(bx)),z)) {
+            ARIADNE_THROW(NoSolutionException,"SolverBase::solve","no solution in solve("<<f<<","<<bx<<")");
+        } else {
+            ARIADNE_THROW(UnknownSolutionException,"SolverBase::solve","no solution found in solve("<<f<<","<<bx<<")");
+        }
+    }
     if(r.size()!=1u) { ARIADNE_THROW(SolverException,"SolverBase::solve","non-unique solution in solve("<<f<<","<<bx<<")"); }
     return *r.begin();
 }
@@ -367,7 +375,7 @@ auto SolverBase::implicit(const ValidatedVectorMultivariateFunction& f,
         }
     }
 
-    ARIADNE_THROW(NoSolutionException,"SolverBase::implicit","Could not prove existence of a solution in "<<ix<<".");
+    ARIADNE_THROW(UnknownSolutionException,"SolverBase::implicit","Could not prove existence of a solution in "<<ix<<".");
 }
 
 ValidatedScalarMultivariateFunctionPatch
-- 
2.43.0


From fe5a47708399c6eee8b3d5a363afe8ce733fdf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 62/63] fix: indicator of a negated conjunction is the maximum,
 not the minimum, of the negated indicators

---
 source/symbolic/expression.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index 6592b5c..574b576 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -320,8 +320,10 @@ RE _indicator(Less, RE e1, RE e2, Sign sign) { return _indicator(Leq(),e1,e2,sig
 RE _indicator(Equal op, RE e1, RE e2, Sign sign) { ARIADNE_FAIL_MSG("Cannot compute indicator function of expression " << op(e1,e2)); }
 RE _indicator(Unequal op, RE e1, RE e2, Sign sign) { ARIADNE_FAIL_MSG("Cannot compute indicator function of expression " << op(e1,e2)); }
 
-RE _indicator(AndOp, KE e1, KE e2, Sign sign) { return min(indicator(e1,sign),indicator(e2,sign)); }
-RE _indicator(OrOp, KE e1, KE e2, Sign sign) { return max(indicator(e1,sign),indicator(e2,sign)); }
+RE _indicator(AndOp, KE e1, KE e2, Sign sign) {
+    if(sign==Sign::POSITIVE) { return min(indicator(e1,sign),indicator(e2,sign)); } else { return max(indicator(e1,sign),indicator(e2,sign)); } }
+RE _indicator(OrOp, KE e1, KE e2, Sign sign) {
+    if(sign==Sign::POSITIVE) { return max(indicator(e1,sign),indicator(e2,sign)); } else { return min(indicator(e1,sign),indicator(e2,sign)); } }
 RE _indicator(NotOp, KE e, Sign sign) { return neg(indicator(e,sign)); }
 
 Expression<Real> indicator(ConstantExpressionNode<Kleenean> e, Sign sign) {
-- 
2.43.0


From eee84b7471eb67e814547c7a42b2ef2dee8041ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 63/63] fix: opposite compares the arguments of comparisons of
 reals, and no equality is its own negation

---
 source/symbolic/expression.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index 574b576..75faf4d 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -460,8 +460,14 @@ constexpr Bool _opposite(Gtr,Less) { return true; }
 constexpr Bool _opposite(Less,Gtr) { return true; }
 template<class OP1, class OP2> constexpr Bool _opposite(OP1,OP2) { return false; }
 
+constexpr Bool _symmetric(Equal) { return true; }
+constexpr Bool _symmetric(Unequal) { return true; }
+template<class OP> constexpr Bool _symmetric(OP) { return false; }
+
 Bool opposite(BinaryComparisonOperator ops1, BinaryComparisonOperator ops2) {
     return ops1.accept([&ops2](auto op1){return ops2.accept([&op1](auto op2){return _opposite(op1,op2);});}); }
+Bool symmetric(BinaryComparisonOperator ops) {
+    return ops.accept([](auto op){return _symmetric(op);}); }
 Bool identical(BinaryComparisonOperator ops1, BinaryComparisonOperator ops2) {
     return ops1.accept([&ops2](auto op1){return ops2.accept([&op1](auto op2){return _identical(op1,op2);});}); }
 }
@@ -473,9 +479,9 @@ Bool opposite(Expression<Kleenean> e1, Expression<Kleenean> e2) {
 
     if (e1cp && e2cp) {
         if (identical(e1cp->op(),e2cp->op())) {
-            return identical(e1.arg1(),e2.arg2()) && identical(e1.arg2(),e2.arg1());
+            return not symmetric(e1cp->op()) && identical(e1cp->arg1(),e2cp->arg2()) && identical(e1cp->arg2(),e2cp->arg1());
         } else if (opposite(e1cp->op(),e2cp->op())) {
-            return identical(e1.arg1(),e2.arg1()) && identical(e1.arg2(),e2.arg2());
+            return identical(e1cp->arg1(),e2cp->arg1()) && identical(e1cp->arg2(),e2cp->arg2());
         }
     }
     return false;
-- 
2.43.0

