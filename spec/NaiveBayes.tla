------------------------------ MODULE NaiveBayes -----------------------------
(* The Bayes rule of counted statistics.  Features are integers: quarters of a *)
(* unit for the Gaussian model, counts for the multinomial one.  A model M is  *)
(* [gauss, par, labels, n, s1, s2, d]: per class c the number of rows n[c] and *)
(* per feature j the sums s1[c][j] of the values and s2[c][j] of their squares.*)
(* Log likelihoods are in millionths; par (smoothing) is in millionths.        *)
EXTENDS FixMath, FiniteSets
LU == 1000000
VU == 10000000        \* variances are in 1 / VU
Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Ascending(_)
Ascending(Z) == IF Z = {} THEN <<>> ELSE LET x == CHOOSE x \in Z : \A z \in Z : x <= z IN <<x>> \o Ascending(Z \ {x})
RECURSIVE MaxUpTo(_, _)
MaxUpTo(q, k) == IF k = 1 THEN q[1] ELSE LET r == MaxUpTo(q, k - 1) IN IF q[k] > r THEN q[k] ELSE r
SeqMax(q) == MaxUpTo(q, Len(q))

\* statistics by their definition
Count(X, y, lab) == Cardinality({i \in 1..Len(y) : y[i] = lab})
Part(X, y, lab, f(_)) == SumTo([i \in 1..Len(y) |-> IF y[i] = lab THEN f(X[i]) ELSE 0], Len(y))
Fitted(gauss, par, X, y) ==
  LET labels == Ascending(Range(y)) d == Len(X[1])
  IN [gauss |-> gauss, par |-> par, d |-> d, labels |-> labels,
      n  |-> [c \in 1..Len(labels) |-> Count(X, y, labels[c])],
      s1 |-> [c \in 1..Len(labels) |-> [j \in 1..d |-> Part(X, y, labels[c], LAMBDA x : x[j])]],
      s2 |-> [c \in 1..Len(labels) |-> [j \in 1..d |-> Part(X, y, labels[c], LAMBDA x : x[j] * x[j])]]]
K(M) == Len(M.labels)
Rows(M) == SumTo(M.n, K(M))
Prior(M, c) == MulDiv(LU, M.n[c], Rows(M))
\* mean (in millionths of a unit) and unsmoothed variance
Mean(M, c, j) == MulDiv(LU, M.s1[c][j], 4 * M.n[c])
RawVar(M, c, j) == MulDiv(VU, M.n[c] * M.s2[c][j] - M.s1[c][j] * M.s1[c][j], 16 * M.n[c] * M.n[c])
TopVar(M) == SeqMax([c \in 1..K(M) |-> SeqMax([j \in 1..M.d |-> RawVar(M, c, j)])])
\* the variance used: a portion par of the largest variance is added to every one
Eps(M) == MulDiv(M.par, TopVar(M), LU)
Var(M, c, j) == RawVar(M, c, j) + Eps(M)
\* (x - mean)^2 / variance in millionths
Dist2(M, c, j, xj) == LET D == 1000 * (M.n[c] * xj - M.s1[c][j]) IN Ratio(<<D>>, <<D>>, <<16 * M.n[c] * M.n[c]>>, <<Var(M, c, j)>>, VU)
GaussLik(M, c, x) == Sum([j \in 1..M.d |-> -(LnFix(Var(M, c, j), VU) \div 20) - (Dist2(M, c, j, x[j]) \div 2)])
\* (N_cj + a) / (N_c + a d) for every occurrence of feature j
Tot(M, c) == SumTo(M.s1[c], M.d)
\* the logarithm of k + m / LU, also where k * LU is no longer an integer of TLC
LnSum(k, m) == IF k < 1000 THEN LnFix(k * LU + m, LU) ELSE LnFix((k \div 8) * LU + ((k % 8) * LU + m) \div 8, LU) + LnFix(8 * LU, LU)
MultiLik(M, c, x) == LET t == LnSum(Tot(M, c), M.par * M.d) IN Sum([j \in 1..M.d |-> x[j] * (LnSum(M.s1[c][j], M.par) - t)])
\* joint log likelihood, up to a term common to all classes
Joint(M, x) == [c \in 1..K(M) |-> LnFix(M.n[c] * LU, LU) + IF M.gauss THEN GaussLik(M, c, x) ELSE MultiLik(M, c, x)]
Posterior(z) == LET m == SeqMax(z) t == Sum([k \in 1..Len(z) |-> ExpFix(z[k] - m, LU)])
                IN [k \in 1..Len(z) |-> MulDiv(LU, ExpFix(z[k] - m, LU), t)]
LogPosterior(z) == LET m == SeqMax(z) t == LnFix(Sum([k \in 1..Len(z) |-> ExpFix(z[k] - m, LU)]), LU)
                   IN [k \in 1..Len(z) |-> z[k] - m - t]
Best(z, tol) == {k \in 1..Len(z) : z[k] >= SeqMax(z) - tol}
==============================================================================
