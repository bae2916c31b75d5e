------------------------------- MODULE Reductions -------------------------------
(* Reductions of lines of numbers by their definitions.  A line is a sequence  *)
(* of integers, q counts per unit; results are in s counts per unit.           *)
EXTENDS FixMath, FiniteSets
L == INSTANCE Losses
Column(X, j) == Strict([i \in 1..Len(X) |-> X[i][j]])
RECURSIVE Flatten(_, _)
Flatten(X, i) == IF i > Len(X) THEN <<>> ELSE X[i] \o Flatten(X, i + 1)
\* the lines of a matrix: its columns (0), its rows (1), or all of it row by row (-1)
LinesOf(X, axis) == IF axis = 0 THEN Strict([j \in 1..Len(X[1]) |-> Column(X, j)]) ELSE IF axis = 1 THEN X ELSE <<Flatten(X, 1)>>
\* a matrix with one entry per line, as a row (columns reduced), a column (rows reduced) or a single entry
ShapeOk(R, X, axis) == /\ Len(R) = (IF axis = 1 THEN Len(X) ELSE 1)
                       /\ \A i \in 1..Len(R) : Len(R[i]) = (IF axis = 0 THEN Len(X[1]) ELSE 1)
EntryOf(R, axis, k) == IF axis = 0 THEN R[1][k] ELSE R[k][1]

SumOf(u, q, s) == MulDiv(Sum(u), s, q)
MeanOf(u, q, s) == MulDiv(Sum(u), s, q * Len(u))
\* deviations from the mean, in q * Len(u) counts
Deviations(u) == LET t == Sum(u) IN Strict([i \in 1..Len(u) |-> Len(u) * u[i] - t])
Copies(x, k) == Strict([i \in 1..k |-> x])
\* sum c^2 / (n (n q)^2)
VarOf(u, q, s) == LET c == Deviations(u) n == Len(u) d == Copies(n * q, n) IN Ratio(c, c, d, d, s)
CovOf(u, v, q, s) == LET n == Len(u) d == Copies(n * q, n - 1) IN Ratio(Deviations(u), Deviations(v), d, d, s)
Count(u, x) == Cardinality({i \in 1..Len(u) : u[i] = x})
\* k-th smallest
Kth(u, k) == LET i == CHOOSE i \in 1..Len(u) : /\ Cardinality({j \in 1..Len(u) : u[j] < u[i]}) < k
                                              /\ k <= Cardinality({j \in 1..Len(u) : u[j] <= u[i]}) IN u[i]
Median2(u) == Kth(u, (Len(u) + 1) \div 2) + Kth(u, (Len(u) \div 2) + 1)
MedianOf(u, q, s) == MulDiv(Median2(u), s, 2 * q)
\* a most frequent value, the smallest one when none repeats, and its frequency
IsMode(u, v, n) == /\ n = Count(u, v) /\ n > 0 /\ \A i \in 1..Len(u) : Count(u, u[i]) <= n
                   /\ n = 1 => \A i \in 1..Len(u) : v <= u[i]
Prefix(u, k) == Sum(SubSeq(u, 1, k))
Scaled(u, q, s) == Strict([i \in 1..Len(u) |-> MulDiv(u[i], s, q)])
MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxAbsTo(_, _)
MaxAbsTo(u, n) == IF n = 0 THEN 0 ELSE MaxI(MaxAbsTo(u, n - 1), Abs(u[n]))
NormOf(u, p, q, s) == CASE p = "1" -> MulDiv(Sum([i \in 1..Len(u) |-> Abs(u[i])]), s, q)
                        [] p = "2" -> Norm2(Scaled(u, q, s))
                        [] p = "inf" -> MulDiv(MaxAbsTo(u, Len(u)), s, q)
                        [] p = "sq" -> MulDiv(Dot(u, u, 1), s, q * q)
Minus(u, v) == Strict([i \in 1..Len(u) |-> u[i] - v[i]])
Distinct(u) == {u[i] : i \in 1..Len(u)}
\* the weight of a class, in the counts of the weights; they add up to one per element
ClassWeight(u, w, x) == Sum([i \in 1..Len(u) |-> IF u[i] = x THEN w[i] ELSE 0])
RECURSIVE SumSet(_, _)
SumSet(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumSet(f, D \ {x})
\* -sum p log2 p  =  log2 T - (sum c log2 c) / T  for class weights c of total T, all in wq counts per unit
LOG2(s) == LnFix(2 * s, s)
EntropyOf(u, w, wq, s) == LET D == Distinct(u) T == Sum(w)
                              f == [x \in D |-> LET c == ClassWeight(u, w, x) IN MulDiv(c, LnFix(MulDiv(c, s, wq), s), T)]
                          IN MulDiv(LnFix(MulDiv(T, s, wq), s) - SumSet(f, D), s, LOG2(s))
GiniOf(u, w, s) == LET D == Distinct(u) T == Sum(w) f == [x \in D |-> LET c == ClassWeight(u, w, x) IN MulDiv(s, c * c, T * T)] IN s - SumSet(f, D)
\* 1 - var(b - a) / var(a), for lines that are not constant
ExplainedOf(a, b, s) == LET c == Deviations(Minus(b, a)) d == Deviations(a) IN s - Ratio(c, c, d, d, s)
\* log density: x, mean and variance in q counts
HALFLN2PI(s) == MulDiv(s, 918938533, 1000000000)
GaussOf(x, m, v, q, s) == 0 - MulDiv((x - m) * (x - m), s, 2 * v * q) - (LnFix(MulDiv(v, s, q), s) \div 2) - HALFLN2PI(s)
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
==============================================================================
