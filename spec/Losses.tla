-------------------------------- MODULE Losses -------------------------------
(* Values and gradients of the loss functions in fixed point, s counts per     *)
(* unit.  D = [kind, s, X, y, lam, par]; X is a sequence of rows, y the labels *)
(* (in units, not counts, for classification), w the weights: a vector, or for *)
(* softmax a sequence of class columns.  Regularisation is lam/(2n) |w|^2.     *)
EXTENDS FixMath
MaxI(a, b) == IF a > b THEN a ELSE b

\* ln(1 + e^z) and 1 / (1 + e^-z), stable for every z
SoftPlus(z, s) == MaxI(z, 0) + LnFix(s + ExpFix(-Abs(z), s), s)
Sigmoid(z, s) == LET e == ExpFix(-Abs(z), s) IN IF z >= 0 THEN MulDiv(s, s, s + e) ELSE MulDiv(s, e, s + e)
RECURSIVE MaxOf(_, _)
MaxOf(z, n) == IF n = 1 THEN z[1] ELSE MaxI(MaxOf(z, n - 1), z[n])
SeqMax(z) == MaxOf(z, Len(z))
LogSumExp(z, s) == LET m == SeqMax(z) IN m + LnFix(Sum([k \in 1..Len(z) |-> ExpFix(z[k] - m, s)]), s)
Softmax(z, s) == LET m == SeqMax(z)
                     t == Sum([k \in 1..Len(z) |-> ExpFix(z[k] - m, s)])
                 IN [k \in 1..Len(z) |-> MulDiv(s, ExpFix(z[k] - m, s), t)]

\* ---------------------------------------------------------------- one sample
\* loss of score z against label y (counts for regression, units for classes)
SampleLoss(D, z, y) ==
  LET s == D.s IN
  CASE D.kind = "log"   -> SoftPlus(z, s) - y * z
    [] D.kind = "hinge" -> MaxI(0, D.par - y * z)
    [] D.kind = "mse"   -> MulDiv(y - z, y - z, 2 * s)
    [] D.kind = "huber" -> LET a == Abs(y - z) IN IF a <= D.par THEN MulDiv(a, a, 2 * s) ELSE MulDiv(D.par, 2 * a - D.par, 2 * s)
    [] D.kind = "softmax" -> LogSumExp(z, s) - z[y + 1]
\* derivative with respect to the score; a set, because of kinks.  For softmax a vector.
SampleSlopes(D, z, y, tol) ==
  LET s == D.s IN
  CASE D.kind = "log"   -> {Sigmoid(z, s) - y * s}
    [] D.kind = "hinge" -> (IF D.par - y * z >= -tol THEN {- y * s} ELSE {}) \cup (IF D.par - y * z <= tol THEN {0} ELSE {})
    [] D.kind = "mse"   -> {z - y}
    [] D.kind = "huber" -> {IF z - y > D.par THEN D.par ELSE IF z - y < - D.par THEN - D.par ELSE z - y}
\* the hinge loss is a sum over samples, the others are means
Per(D, x) == IF D.kind = "hinge" THEN x ELSE x \div Len(D.X)

Score(D, i, w) == Dot(D.X[i], w, D.s)
Scores(D, i, w) == [k \in 1..Len(w) |-> Dot(D.X[i], w[k], D.s)]
AnyScore(D, i, w) == IF D.kind = "softmax" THEN Scores(D, i, w) ELSE Score(D, i, w)
Flat(D, w) == IF D.kind # "softmax" THEN w
              ELSE [j \in 1..(Len(w) * Len(w[1])) |-> w[((j - 1) \div Len(w[1])) + 1][((j - 1) % Len(w[1])) + 1]]
Reg(D, w) == MulDiv(D.lam, Dot(Flat(D, w), Flat(D, w), D.s), 2 * D.s * Len(D.X))
Value(D, w) == Per(D, Sum([i \in 1..Len(D.X) |-> SampleLoss(D, AnyScore(D, i, w), D.y[i])])) + Reg(D, w)

RegGrad(D, x) == MulDiv(D.lam, x, D.s * Len(D.X))
\* gradient for a choice of slopes (one per sample)
GradOf(D, w, slopes) == [j \in 1..Len(w) |-> Per(D, Dot([i \in 1..Len(D.X) |-> D.X[i][j]], slopes, D.s)) + RegGrad(D, w[j])]
SmGrad(D, w) ==
  LET p == [i \in 1..Len(D.X) |-> Softmax(Scores(D, i, w), D.s)]
  IN [k \in 1..Len(w) |-> [j \in 1..Len(w[k]) |->
        Dot([i \in 1..Len(D.X) |-> D.X[i][j]], [i \in 1..Len(D.X) |-> p[i][k] - IF D.y[i] + 1 = k THEN D.s ELSE 0], D.s) \div Len(D.X)
        + RegGrad(D, w[k][j])]]
VecNear(a, b, tol) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Near(a[j], b[j], tol)
GradOk(D, w, g, kink, tol) ==
  IF D.kind = "softmax" THEN LET e == SmGrad(D, w) IN Len(g) = Len(e) /\ \A k \in 1..Len(e) : VecNear(g[k], e[k], tol)
  ELSE LET opts == [i \in 1..Len(D.X) |-> SampleSlopes(D, Score(D, i, w), D.y[i], kink)]
           free == {i \in 1..Len(D.X) : \E a \in opts[i], b \in opts[i] : a # b}
           base == [i \in 1..Len(D.X) |-> CHOOSE a \in opts[i] : TRUE]
       IN \E F \in SUBSET free :      \* at a kink either one-sided derivative
            VecNear(g, GradOf(D, w, [i \in 1..Len(D.X) |-> IF i \in F THEN (CHOOSE a \in opts[i] : a # base[i]) ELSE base[i]]), tol)
==============================================================================
