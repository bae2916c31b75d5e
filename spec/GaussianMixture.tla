---------------------------- MODULE GaussianMixture ----------------------------
(* Gaussian mixtures and their EM step in fixed point.  A model is a record    *)
(*   w    weights                       mu    means (rows)                     *)
(*   cov  covariance matrices           chol  upper triangular P, P P' = cov^-1*)
(* with one matrix per component ("full") or one for all of them ("tied").     *)
(* Rows of X are in units of 1/GS like everything else.                        *)
EXTENDS FixMath, FiniteSets, TLC
GS == 1000000
HALFLN2PI == 918939      \* ln(2 pi) / 2
Scalar(a, b) == MulDiv(a, b, GS)
Which(ms, k) == IF Len(ms) = 1 THEN ms[1] ELSE ms[k]
LogDet(P) == SumTo([j \in 1..Len(P) |-> LnFix(P[j][j], GS)], Len(P))
\* squared Mahalanobis distance of x from mu; saturates at 1000
Maha(x, mu, P) == LET u == Strict([i \in 1..Len(x) |-> x[i] - mu[i]])
                      y == Strict([j \in 1..Len(x) |-> Dot(u, [i \in 1..Len(x) |-> P[i][j]], GS)])
                  IN Dot(y, y, GS)
\* logarithm of weight times density
LogJoint(m, x, k) == LnFix(m.w[k], GS) + LogDet(Which(m.chol, k)) - Len(x) * HALFLN2PI - Maha(x, m.mu[k], Which(m.chol, k)) \div 2
Joints(m, x) == Strict([k \in 1..Len(m.w) |-> LogJoint(m, x, k)])
RECURSIVE MaxTo(_, _)
MaxTo(u, n) == IF n = 1 THEN u[1] ELSE LET r == MaxTo(u, n - 1) IN IF u[n] > r THEN u[n] ELSE r
Largest(u) == MaxTo(u, Len(u))
Exps(u) == LET t == Largest(u) IN Strict([k \in 1..Len(u) |-> ExpFix(u[k] - t, GS)])
\* logarithm of the density of the mixture at x
LogDensity(m, x) == LET u == Joints(m, x) IN Largest(u) + LnFix(Sum(Exps(u)), GS)
\* posterior probability of every component given x
Posterior(m, x) == LET e == Exps(Joints(m, x)) s == Sum(e) IN Strict([k \in 1..Len(e) |-> MulDiv(e[k], GS, s)])
\* mean log density of the rows of X
LogLik(m, X) == SumTo([i \in 1..Len(X) |-> LogDensity(m, X[i])], Len(X)) \div Len(X)
\* is every row close enough to some component for the above to be accurate?
Within(m, x) == \E k \in 1..Len(m.w) : Maha(x, m.mu[k], Which(m.chol, k)) < 400 * GS
--------------------------------------------------------------------------------
(* The M step: weights, means and covariances from responsibilities R[i][k].   *)
Column(M, j) == Strict([i \in 1..Len(M) |-> M[i][j]])
Ones(n) == [i \in 1..n |-> 1]
Share(R, k) == Sum(Column(R, k))
MeanOf(X, R, k) == [j \in 1..Len(X[1]) |-> Ratio(Column(R, k), Column(X, j), Column(R, k), Ones(Len(X)), 1)]
\* weighted covariance of component k around mu, plus reg on the diagonal
Scatter(X, R, k, mu) == LET n == Len(X) d == Len(X[1])
                            D == Strict([i \in 1..n |-> [j \in 1..d |-> X[i][j] - mu[j]]])
                        IN [a \in 1..d |-> [b \in 1..d |-> Ratio(Column(R, k), [i \in 1..n |-> MulDiv(D[i][a], D[i][b], GS)], Column(R, k), Ones(n), 1)]]
AddReg(M, reg) == [a \in 1..Len(M) |-> [b \in 1..Len(M) |-> M[a][b] + IF a = b THEN reg ELSE 0]]
MStep(X, R, type, reg) ==
  LET n == Len(X) K == Len(R[1]) d == Len(X[1])
      mu == Strict([k \in 1..K |-> MeanOf(X, R, k)])
      S == Strict([k \in 1..K |-> Scatter(X, R, k, mu[k])])
      T == [a \in 1..d |-> [b \in 1..d |-> SumTo([k \in 1..K |-> MulDiv(Share(R, k), S[k][a][b], n * GS)], K)]]
  IN [w |-> Strict([k \in 1..K |-> Share(R, k) \div n]), mu |-> mu,
      cov |-> IF type = "tied" THEN <<AddReg(T, reg)>> ELSE [k \in 1..K |-> AddReg(S[k], reg)]]
EStep(m, X) == Strict([i \in 1..Len(X) |-> Posterior(m, X[i])])
--------------------------------------------------------------------------------
\* upper triangular P with P P' = cov^-1, for one or two features
Sq(x) == SqrtFix(x, GS)
Inv(x) == MulDiv(GS, GS, x)
CholOf(c) == IF Len(c) = 1 THEN <<<<Inv(Sq(c[1][1]))>>>>
             ELSE LET a == Sq(c[1][1])
                      b == MulDiv(c[2][1], GS, a)
                      r == Sq(c[2][2] - Scalar(b, b))
                  IN <<<<Inv(a), MulDiv(-b, Inv(r), a)>>, <<0, Inv(r)>>>>
WithChol(p) == [w |-> p.w, mu |-> p.mu, cov |-> p.cov, chol |-> [k \in 1..Len(p.cov) |-> CholOf(p.cov[k])]]
==============================================================================
