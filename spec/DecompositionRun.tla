--------------------------- MODULE DecompositionRun ---------------------------
(* Fit / transform histories of two-feature data sets, the components being    *)
(* computed in closed form.                                                    *)
EXTENDS Decomposition
CONSTANTS Vals, MaxRows, K, Fits
VARIABLES X, m, fits, out
vars == <<X, m, fits, out>>
Datasets == {Y \in UNION {[1..n -> [1..2 -> Vals]] : n \in 2..MaxRows} : Y[1] # Y[2]}
Root(x) == SqrtFix(x, DS)
\* unit vector along v (v in any units)
Unit(v) == LET r == Norm2(v) IN <<MulDiv(v[1], DS, r), MulDiv(v[2], DS, r)>>
Closed(Y) ==
  LET M == Scat(Y, TRUE) D == Div(Y, TRUE)
      Z == 10000
      a == M[1][1] * Z b == M[1][2] * Z c == M[2][2] * Z
      h == Norm2(<<(a - c) \div 2, b>>)
      mid == (a + c) \div 2
      l1 == mid + h
      l2 == IF mid > h THEN mid - h ELSE 0
      v1 == IF b = 0 THEN (IF a >= c THEN <<DS, 0>> ELSE <<0, DS>>)
            ELSE IF a >= c THEN Unit(<<l1 - c, b>>) ELSE Unit(<<b, l1 - a>>)
      v2 == <<-v1[2], v1[1]>>
      Flip(v) == LET U == Lines(Y, TRUE)
                     t == Strict([i \in 1..Len(Y) |-> Dot(U[i], v, Len(Y))])
                     big == CHOOSE i \in 1..Len(Y) : \A j \in 1..Len(Y) : Abs(t[i]) >= Abs(t[j])
                 IN IF t[big] < 0 THEN <<-v[1], -v[2]>> ELSE v
      ls == <<MulDiv(l1, DS, D * Z), MulDiv(l2, DS, D * Z)>>
      vs == <<Flip(v1), Flip(v2)>>
  IN [V |-> [j \in 1..K |-> vs[j]], s |-> [j \in 1..K |-> Root(ls[j])], var |-> [j \in 1..K |-> ls[j] \div (Len(Y) - 1)],
      ratio |-> [j \in 1..K |-> MulDiv(ls[j], DS, ls[1] + ls[2])]]
Init == X = <<>> /\ m = <<>> /\ fits = 0 /\ out = <<>>
Fit == fits < Fits /\ X' \in Datasets /\ m' = Closed(X') /\ fits' = fits + 1 /\ out' = <<>>
Transform == fits > 0 /\ out = <<>> /\ LET t == Totals(X) IN out' = Strict([i \in 1..Len(X) |-> Project(m, Centred(X[i], t, Len(X)), 4 * Len(X))]) /\ UNCHANGED <<X, m, fits>>
Next == Fit \/ Transform
Spec == Init /\ [][Next]_vars
C24_Components == fits > 0 => IsPCA(m, X, 1)
\* the projections of the training rows are centred, uncorrelated, and vary as announced
C24_Projections == out # <<>> =>
   \A i, j \in 1..K : LET a == Col(out, i) b == Col(out, j) IN
      /\ Near(Sum(a), 0, 10 * Len(X))
      /\ Near(Dot(a, b, DS), IF i = j THEN MulDiv(m.var[i], Len(X) - 1, 1) ELSE 0, Slack(TotalOf(X, TRUE), 10))
\* with all components nothing is lost: distances are kept
C24_Isometry == (out # <<>> /\ K = 2) =>
   \A i, j \in 1..Len(X) : Near(MulDiv((X[i][1] - X[j][1]) * (X[i][1] - X[j][1]) + (X[i][2] - X[j][2]) * (X[i][2] - X[j][2]), DS, 16),
                                Square(out[i][1] - out[j][1]) + Square(out[i][2] - out[j][2]), Slack(TotalOf(X, TRUE), 10))
\* the covariance of the model is the covariance of the data when all components are kept
C24_Covariance == (fits > 0 /\ K = 2 /\ Len(X) > 2) => LET M == Scat(X, TRUE) C == CovOf(m, 0, 2) IN
   \A a, b \in 1..2 : Near(C[a][b], MulDiv(M[a][b], DS, Div(X, TRUE) * (Len(X) - 1)), Slack(TotalOf(X, TRUE), 10))
==============================================================================
