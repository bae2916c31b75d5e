------------------------------- MODULE FactorRun -------------------------------
(* Gaussian elimination with row pivoting, one column per step, in exact       *)
(* rational arithmetic, over all small integer matrices; ties between pivots   *)
(* are resolved either way.  The finished factors have to be a factorisation   *)
(* in the sense the code's factors are judged by.                              *)
EXTENDS Factorisations
CONSTANTS Rows, Columns, Span, Sym, Pivoting
ASSUME Pivoting \in BOOLEAN
VARIABLES A, W, perm, k, sign
vars == <<A, W, perm, k, sign>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(n, d) == LET g == Gcd(Abs(n), Abs(d)) IN IF n = 0 THEN <<0, 1>> ELSE IF d < 0 THEN <<-(n \div g), -d \div g>> ELSE <<n \div g, d \div g>>
Minus(x, y) == Rat(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
Times(x, y) == Rat(x[1] * y[1], x[2] * y[2])
Over(x, y) == Rat(x[1] * y[2], x[2] * y[1])
Plus(x, y) == Rat(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
Less(x, y) == Abs(x[1]) * y[2] < Abs(y[1]) * x[2]
K == MinOf(Rows, Columns)
Values == -Span..Span
Init == /\ A \in [1..Rows -> [1..Columns -> Values]]
        /\ Sym => \A i, j \in 1..Rows : A[i][j] = A[j][i]
        /\ W = [i \in 1..Rows |-> [j \in 1..Columns |-> <<A[i][j], 1>>]]
        /\ perm = [i \in 1..Rows |-> i] /\ k = 0 /\ sign = 1
Best(r) == \A i \in (k + 1)..Rows : ~Less(W[r][k + 1], W[i][k + 1])
Eliminate(M, s) == [i \in 1..Rows |-> [j \in 1..Columns |->
   IF i <= s \/ j < s THEN M[i][j] ELSE IF j = s THEN Over(M[i][s], M[s][s]) ELSE Minus(M[i][j], Times(Over(M[i][s], M[s][s]), M[s][j]))]]
Step == /\ k < K /\ k' = k + 1 /\ UNCHANGED A
        /\ \E r \in (k + 1)..Rows : /\ IF Pivoting THEN Best(r) ELSE r = k + 1
                             /\ IF W[r][k + 1][1] = 0 THEN UNCHANGED <<W, perm, sign>>
                                ELSE /\ W' = Eliminate(Swap(W, k + 1, r), k + 1)
                                     /\ perm' = Swap(perm, k + 1, r)
                                     /\ sign' = IF r = k + 1 THEN sign ELSE -sign
Next == Step
Spec == Init /\ [][Next]_vars
\* entries of the factors after k columns
LAt(i, j) == IF i = j THEN <<1, 1>> ELSE IF i > j /\ j <= k THEN W[i][j] ELSE <<0, 1>>
UAt(i, j) == IF i > k THEN (IF j > k THEN W[i][j] ELSE <<0, 1>>) ELSE IF j >= i THEN W[i][j] ELSE <<0, 1>>
RECURSIVE RatSum(_, _, _)
RatSum(i, j, t) == IF t = 0 THEN <<0, 1>> ELSE Plus(RatSum(i, j, t - 1), Times(LAt(i, t), UAt(t, j)))
Zero == \E t \in 1..k : W[t][t][1] = 0
\* at every step the rows of A are the product of what has been eliminated and what is left
C28_Partial == (Pivoting \/ ~Zero) => \A i \in 1..Rows : \A j \in 1..Columns : RatSum(i, j, Rows) = <<A[perm[i]][j], 1>>
Fx(x) == (2 * x[1] * DS + x[2]) \div (2 * x[2])
P == [i \in 1..Rows |-> [j \in 1..Rows |-> IF perm[j] = i THEN DS ELSE 0]]
LOf == [i \in 1..Rows |-> [j \in 1..K |-> Fx(LAt(i, j))]]
UOf == [i \in 1..K |-> [j \in 1..Columns |-> Fx(UAt(i, j))]]
C28_LU == (k = K /\ Pivoting) => IsLU(A, P, LOf, UOf, FALSE, 1, 1) /\ IsLU(A, Permuted(P, LOf), LOf, UOf, TRUE, 1, 1)
RECURSIVE RatProd(_)
RatProd(i) == IF i = 0 THEN <<1, 1>> ELSE Times(RatProd(i - 1), W[i][i])
\* the pivots multiply to the determinant, up to the parity of the exchanges
C28_Determinant == (k = K /\ Rows = Columns /\ Pivoting) => RatProd(K) = <<sign * Det(A), 1>>
Vectors == [1..Rows -> -2..2] \ {[i \in 1..Rows |-> 0]}
Form(x) == Dot(x, Strict([i \in 1..Rows |-> Dot(A[i], x, 1)]), 1)
\* without exchanges: all pivots positive exactly when the leading minors are; then no direction is flat
C28_Definite == (k = K /\ Sym /\ ~Pivoting) =>
   /\ (~Zero => (MustFactor(A) <=> \A i \in 1..K : W[i][i][1] > 0))
   /\ (MustFactor(A) => \A x \in Vectors : Form(x) > 0)
   /\ (MustRefuse(A) => \E x \in Vectors : Form(x) <= 0)
   /\ (MustFactor(A) => LET R == [i \in 1..K |-> [j \in 1..K |-> IF j > i THEN 0 ELSE MulDiv(Fx(LAt(i, j)), SqrtFix(Fx(W[j][j]), DS), DS)]] IN IsCholesky(A, R, TRUE, 1, 3))
==============================================================================
