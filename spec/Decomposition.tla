----------------------------- MODULE Decomposition -----------------------------
(* Principal components and truncated SVD of small integer matrices.  Rows are *)
(* given in quarters.  The scatter matrix is exact: the integer matrix Scat(X) *)
(* divided by Div(X).  A fitted model is a record                              *)
(*   V components (rows)   s singular values   var variances   ratio shares    *)
(* in units of 1/DS.                                                           *)
EXTENDS FixMath, FiniteSets, TLC
DS == 100000
Col(M, j) == Strict([i \in 1..Len(M) |-> M[i][j]])
Cols(M) == Len(M[1])
\* column sums of X, and the rows relative to the mean, times the number of rows
Totals(X) == Strict([j \in 1..Cols(X) |-> Sum(Col(X, j))])
Centred(x, tot, n) == Strict([j \in 1..Len(x) |-> n * x[j] - tot[j]])
Lines(X, centre) == IF centre THEN LET t == Totals(X) IN Strict([i \in 1..Len(X) |-> Centred(X[i], t, Len(X))]) ELSE X
Div(X, centre) == IF centre THEN 16 * Len(X) * Len(X) ELSE 16
Scat(X, centre) == LET U == Lines(X, centre) IN Strict([a \in 1..Cols(X) |-> [b \in 1..Cols(X) |-> Dot(Col(U, a), Col(U, b), 1)]])
Trace(M) == Sum([a \in 1..Len(M) |-> M[a][a]])
MinOf(a, b) == IF a < b THEN a ELSE b
Square(x) == MulDiv(x, x, DS)
\* rounding of a product of the scatter matrix with a component, for total variation T (in whole units)
Slack(T, c) == 40 + c * (T + 1)
TotalOf(X, centre) == MulDiv(Trace(Scat(X, centre)), 1, Div(X, centre))
--------------------------------------------------------------------------------
Orthonormal(V, c) == \A i, j \in 1..Len(V) : Near(Dot(V[i], V[j], DS), IF i = j THEN DS ELSE 0, 5 * c)
Ordered(s, c) == \A i \in 1..Len(s) : s[i] >= -c /\ (i > 1 => s[i] <= s[i - 1] + c)
\* V[j] is an eigenvector of the scatter matrix with eigenvalue s[j]^2
EigenPairs(m, M, D, T, c) == \A j \in 1..Len(m.V) : \A a \in 1..Len(M) : Near(Dot(M[a], m.V[j], D), MulDiv(Square(m.s[j]), m.V[j][a], DS), Slack(T, 4 * c))
\* directions to test the residual scatter on
Axes(d) == [1..d -> {-2, -1, 0, 1, 2}]
Pairs(d) == {[i \in 1..d |-> IF i = a THEN 1 ELSE IF i = b THEN t ELSE 0] : a \in 1..d, b \in 1..d, t \in {-1, 1}}
Dirs(d) == IF d <= 4 THEN Axes(d) ELSE Pairs(d)
\* no direction has more scatter left than the last component explains
Leading(m, M, D, T, c) == LET k == Len(m.V) q == Square(m.s[k]) IN
  \A w \in Dirs(Len(M)) : LET wMw == Dot(w, [a \in 1..Len(M) |-> Dot(M[a], w, 1)], 1)
                              n2 == Dot(w, w, 1)
                          IN MulDiv(wMw, DS, D) <= Sum([j \in 1..k |-> MulDiv(Square(Dot(m.V[j], w, 1)), Square(m.s[j]), DS)]) + MulDiv(q, n2, 1) + n2 * Slack(T, 10 * c)
\* projection of the row u / den on the components
Project(m, u, den) == Strict([j \in 1..Len(m.V) |-> Dot(u, m.V[j], den)])
\* the largest coordinate of the training rows along a component is positive
SignFixed(m, X, centre, c) == LET U == Lines(X, centre) den == IF centre THEN 4 * Len(X) ELSE 4
                                  P == Strict([i \in 1..Len(X) |-> Project(m, U[i], den)])
                              IN \A j \in 1..Len(m.V) : LET t == Col(P, j) IN
                                   \A i \in 1..Len(X) : t[i] < -(1000 * c) => \E h \in 1..Len(X) : t[h] >= -t[i] - 100 * c
SameLen(m, k, d) == Len(m.V) = k /\ (\A i \in 1..k : Len(m.V[i]) = d) /\ Len(m.s) = k /\ Len(m.var) = k /\ Len(m.ratio) = k
IsPCA(m, X, c) == LET n == Len(X) M == Scat(X, TRUE) D == Div(X, TRUE) T == TotalOf(X, TRUE) TS == MulDiv(Trace(M), DS, D) IN
  /\ Orthonormal(m.V, c) /\ Ordered(m.s, 10 * c) /\ Ordered(m.var, Slack(T, c))
  /\ EigenPairs(m, M, D, T, c) /\ Leading(m, M, D, T, c) /\ SignFixed(m, X, TRUE, c)
  /\ \A j \in 1..Len(m.V) : /\ Near(MulDiv(m.var[j], n - 1, 1), Square(m.s[j]), Slack(T, 10 * c))
                            /\ TS > DS => Near(m.ratio[j], MulDiv(Square(m.s[j]), DS, TS), 100 * c)
--------------------------------------------------------------------------------
(* The probabilistic model of PCA: variance var[j] along V[j], and in all      *)
(* other directions the mean of the variances left out.                        *)
Noise(m, X) == LET r == MinOf(Len(X), Cols(X)) k == Len(m.V) IN
   IF k < r THEN (MulDiv(Trace(Scat(X, TRUE)), DS, Div(X, TRUE) * (Len(X) - 1)) - Sum(m.var)) \div (r - k) ELSE 0
CovOf(m, noise, d) == Strict([a \in 1..d |-> [b \in 1..d |-> (IF a = b THEN noise ELSE 0)
      + Sum([j \in 1..Len(m.V) |-> MulDiv(IF m.var[j] > noise THEN m.var[j] - noise ELSE 0, Dot(<<m.V[j][a]>>, <<m.V[j][b]>>, DS), DS)])]])
\* smallest variance of the model
Least(m, noise, d) == IF Len(m.V) < d THEN MinOf(noise, m.var[Len(m.V)]) ELSE m.var[Len(m.V)]
HALFLN == 91894
LogDetOf(m, noise, d) == Sum([j \in 1..Len(m.V) |-> LnFix(m.var[j], DS)]) + (IF d > Len(m.V) THEN (d - Len(m.V)) * LnFix(noise, DS) ELSE 0)
\* squared Mahalanobis distance of a query row, u being n * row - totals
Quad(m, noise, u, n) == LET t == Project(m, u, 4 * n)
                            rest == Dot(u, u, 1)
                        IN Sum([j \in 1..Len(t) |-> MulDiv(Square(t[j]), DS, m.var[j])])
                           + IF noise > 0 THEN MulDiv(MulDiv(rest, DS, 16 * n * n) - Sum([j \in 1..Len(t) |-> Square(t[j])]), DS, noise) ELSE 0
ScoreOf(m, noise, Q, tot, n, d) == -(d * HALFLN) - LogDetOf(m, noise, d) \div 2 - Sum([i \in 1..Len(Q) |-> Quad(m, noise, Centred(Q[i], tot, n), n) \div Len(Q)]) \div 2
--------------------------------------------------------------------------------
\* population variance of the projections of the rows
VarOf(t) == LET n == Len(t) mean == Sum(t) \div n IN Sum([i \in 1..n |-> Square(t[i] - mean) \div n])
ColVar(X) == LET M == Scat(X, TRUE) IN MulDiv(Trace(M), DS, Div(X, TRUE) * Len(X))
\* exact says that the random sketch keeps everything (or all that matters) of the matrix
IsSVD(m, X, exact, c) == LET M == Scat(X, FALSE) D == Div(X, FALSE) T == TotalOf(X, FALSE)
                             P == Strict([i \in 1..Len(X) |-> Project(m, X[i], 4)])
                             full == ColVar(X)
                         IN
  /\ Orthonormal(m.V, c) /\ Ordered(m.s, 10 * c)
  /\ \A j \in 1..Len(m.V) : LET t == Col(P, j) IN
       /\ Square(m.s[j]) <= Dot(t, t, DS) + Slack(T, 10 * c)
       /\ Near(m.var[j], VarOf(t), Slack(T, 10 * c))
       /\ full > DS => Near(m.ratio[j], MulDiv(m.var[j], DS, full), 200 * c)
  /\ exact => EigenPairs(m, M, D, T, 40 * c) /\ Leading(m, M, D, T, 20 * c) /\ SignFixed(m, X, FALSE, c)
==============================================================================
