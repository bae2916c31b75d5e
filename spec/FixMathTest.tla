----------------------------- MODULE FixMathTest -----------------------------
(* The definitions of FixMath, restated here under other names so that TLC     *)
(* evaluates them literally, against the operators TLC overrides.              *)
EXTENDS FixMath, TLC
VARIABLE x
RECURSIVE ES(_, _, _, _)
ES(a, s, k, term) == IF k > 12 \/ term = 0 THEN 0 ELSE term + ES(a, s, k + 1, (term * a) \div (s * k))
RECURSIVE Sq(_, _, _)
Sq(y, s, n) == IF n = 0 THEN y ELSE Sq((y * y) \div s, s, n - 1)
PosE(a, s) == Sq(ES(a \div 16, s, 1, s), s, 4)
PlainExp(a, s) == IF a < 0 THEN (s * s) \div PosE(-a, s) ELSE PosE(a, s)
PlainSqrt(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
RECURSIVE PlainSum(_)
PlainSum(u) == IF u = <<>> THEN 0 ELSE Head(u) + PlainSum(Tail(u))
R == -7..7
Seqs == UNION {[1..n -> -3..3] : n \in 0..3}
ASSUME \A a \in R, b \in R, c \in R \ {0} : MulDiv(a, b, c) = (a * b) \div c
ASSUME \A u \in Seqs : Sum(u) = PlainSum(u)
ASSUME \A u \in Seqs : \A v \in {w \in Seqs : Len(w) = Len(u)} :
         Dot(u, v, 2) = PlainSum([i \in 1..Len(u) |-> u[i] * v[i]]) \div 2
ASSUME \A u \in Seqs : \A v \in {w \in Seqs : Len(w) = Len(u)} : LET d == PlainSum([i \in 1..Len(u) |-> v[i] * v[i]]) IN Ratio(u, v, v, v, 5) = IF d = 0 THEN 0 ELSE (5 * PlainSum([i \in 1..Len(u) |-> u[i] * v[i]])) \div d
ASSUME \A n \in 0..300 : ISqrt(n) = PlainSqrt(n)
ASSUME \A u \in Seqs : Norm2(u) = PlainSqrt(PlainSum([i \in 1..Len(u) |-> u[i] * u[i]]))
ASSUME \A n \in 0..40 : SqrtFix(n, 10) = PlainSqrt(n * 10)
ASSUME \A a \in R, b \in R, c \in R : CmpProd(a, b, c, 5) = (IF a*b > c*5 THEN 1 ELSE IF a*b < c*5 THEN -1 ELSE 0)
ASSUME \A a \in -30..10 : Abs(ExpFix(a * 100, 1000) - PlainExp(a * 100, 1000)) <= 40 + ExpFix(a * 100, 1000) \div 20
ASSUME \A a \in 1..100 : Abs(ExpFix(LnFix(a * 100, 1000), 1000) - a * 100) <= 1 + a \div 10
Init == x = 0
Next == UNCHANGED x
==============================================================================
