------------------------------- MODULE FixMath -------------------------------
(* Fixed-point arithmetic over the integers.  A real r is represented by the   *)
(* integer nearest to r * s for a scale s.  The definitions below are the      *)
(* mathematical meaning.  TLC's integers have 32 bits, so TLC evaluates these  *)
(* operators with the 64/128-bit overrides of java/FixMath.java; FixMathTest   *)
(* checks that both agree wherever the plain definitions do not overflow.      *)
(* Results outside +-1000000000 saturate, like the numbers of the traces.      *)
EXTENDS Integers, Sequences

BIG  == 1000000000      \* largest magnitude a logged number can have
PINF == 1000000001      \* logged +infinity
NINF == -1000000001     \* logged -infinity
NAN  == 1000000002      \* logged NaN

\* v itself; TLC evaluates a sequence given as a function once instead of at every use
Strict(v) == v
\* a guard TLC must evaluate as a plain expression, not explore as an action
Holds(x) == x = TRUE
Abs(x) == IF x < 0 THEN -x ELSE x
IsNum(x) == Abs(x) < BIG
Near(a, b, tol) == IsNum(a) /\ IsNum(b) /\ a - b <= tol /\ b - a <= tol

Sat(x) == IF x > BIG THEN BIG ELSE IF x < -BIG THEN -BIG ELSE x

\* floor(a * b / c), c # 0
MulDiv(a, b, c) == Sat((a * b) \div c)

RECURSIVE SumTo(_, _)
SumTo(u, n) == IF n = 0 THEN 0 ELSE SumTo(u, n - 1) + u[n]
Sum(u) == Sat(SumTo(u, Len(u)))

RECURSIVE DotTo(_, _, _)
DotTo(u, v, n) == IF n = 0 THEN 0 ELSE DotTo(u, v, n - 1) + u[n] * v[n]
\* floor((u . v) / c)
Dot(u, v, c) == Sat(DotTo(u, v, Len(u)) \div c)

\* floor of the square root of a natural number
ISqrt(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
\* floor(sqrt(u . u)), the Euclidean norm in the units of u
Norm2(u) == ISqrt(DotTo(u, u, Len(u)))
\* fixed-point square root: floor(s * sqrt(x / s))
SqrtFix(x, s) == ISqrt(x * s)

\* floor(s * (u . v) / (a . b)); 0 when a . b = 0
Ratio(u, v, a, b, s) == LET d == DotTo(a, b, Len(a)) IN IF d = 0 THEN 0 ELSE Sat((s * DotTo(u, v, Len(u))) \div d)

\* sign of a*b - c*d, exactly
CmpProd(a, b, c, d) == IF a * b > c * d THEN 1 ELSE IF a * b < c * d THEN -1 ELSE 0

(* Exponential and logarithm in fixed point, to within one unit.  Exp by the   *)
(* Taylor series of x / 16 squared four times; Ln by bisection on Exp.        *)
RECURSIVE ExpSeries(_, _, _, _)
ExpSeries(x, s, k, term) ==
  IF k > 12 \/ term = 0 THEN 0 ELSE term + ExpSeries(x, s, k + 1, (term * x) \div (s * k))
RECURSIVE SquareTimes(_, _, _)
SquareTimes(y, s, n) == IF n = 0 THEN y ELSE SquareTimes((y * y) \div s, s, n - 1)
\* round(s * exp(x / s))
PosExp(x, s) == SquareTimes(ExpSeries(x \div 16, s, 1, s), s, 4)
ExpFix(x, s) == Sat(IF x < 0 THEN (s * s) \div PosExp(-x, s) ELSE PosExp(x, s))
\* round(s * ln(x / s)), x > 0
LnFix(x, s) == CHOOSE y \in -(21 * s)..(21 * s) :
                 ExpFix(y, s) <= x /\ \A z \in (y + 1)..(21 * s) : ExpFix(z, s) > x
==============================================================================
