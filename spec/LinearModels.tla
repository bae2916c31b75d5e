----------------------------- MODULE LinearModels ----------------------------
(* Linear regressors and classifiers in fixed point, s counts per unit.        *)
(* W is a sequence of weight vectors, one per output; with an intercept each   *)
(* has one more entry than a row of X, the last, for a constant feature 1.     *)
EXTENDS FixMath
MaxI(a, b) == IF a > b THEN a ELSE b
Ext(x, ic, s) == IF ic THEN Append(x, s) ELSE x
Affine(x, w, ic, s) == Dot(Ext(x, ic, s), w, s)
Shaped(X, W, ic) == \A k \in 1..Len(W) : Len(W[k]) = Len(X[1]) + (IF ic THEN 1 ELSE 0)
SumAbs(w) == Sum([j \in 1..Len(w) |-> Abs(w[j])])

\* ---------------------------------------------------------------- regression
Col(X, j, ic, s) == [i \in 1..Len(X) |-> Ext(X[i], ic, s)[j]]
Residual(X, y, w, ic, s) == [i \in 1..Len(X) |-> Affine(X[i], w, ic, s) - y[i]]
\* j-th entry of X'(Xw - y)
Corr(X, y, w, ic, s, j) == Dot(Col(X, j, ic, s), Residual(X, y, w, ic, s), s)
\* least squares and ridge: X'(Xw - y) + lam w = 0
NormalEq(X, y, w, lam, ic, s, tol) == \A j \in 1..Len(w) : Near(Corr(X, y, w, ic, s, j) + MulDiv(lam, w[j], s), 0, tol)
\* lasso: w minimises |Xw - y|^2 / (2n) + lam |w|_1
LassoOpt(X, y, w, lam, ic, s, tol) ==
  \A j \in 1..Len(w) : LET g == Corr(X, y, w, ic, s, j) \div Len(X) IN
     IF w[j] > tol THEN Near(g, - lam, tol) ELSE IF w[j] < - tol THEN Near(g, lam, tol) ELSE Abs(g) <= lam + tol
\* the objectives these equations are the optimality conditions of
RidgeObj(X, y, w, lam, ic, s) == Dot(Residual(X, y, w, ic, s), Residual(X, y, w, ic, s), s) + MulDiv(lam, Dot(w, w, s), s)
LassoObj(X, y, w, lam, ic, s) == (Dot(Residual(X, y, w, ic, s), Residual(X, y, w, ic, s), s) \div (2 * Len(X))) + MulDiv(lam, SumAbs(w), s)

\* ------------------------------------------------------------ classification
RECURSIVE MaxOf(_, _)
MaxOf(z, n) == IF n = 1 THEN z[1] ELSE MaxI(MaxOf(z, n - 1), z[n])
SeqMax(z) == MaxOf(z, Len(z))
Scores(x, W, ic, s) == [k \in 1..Len(W) |-> Affine(x, W[k], ic, s)]
\* class scores: a single weight vector scores class 2 against class 1 at zero
ClassScores(x, W, ic, s) == IF Len(W) = 1 THEN <<0, Affine(x, W[1], ic, s)>> ELSE Scores(x, W, ic, s)
\* classes that may be predicted when scores are known to within tol
Best(z, tol) == {k \in 1..Len(z) : z[k] >= SeqMax(z) - tol}
Softmax(z, s) == LET m == SeqMax(z)
                     t == Sum([k \in 1..Len(z) |-> ExpFix(z[k] - m, s)])
                 IN [k \in 1..Len(z) |-> MulDiv(s, ExpFix(z[k] - m, s), t)]
==============================================================================
