---------------------------- MODULE ReductionsTrace ----------------------------
(* Trace validation of the statistical functions: one call per event.  e.c is  *)
(* the slack of the number type (1 for double).                                *)
EXTENDS Reductions, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Close(a, b, e, k) == Near(a, b, (3 + k) * e.c + (IF e.c > 1 THEN Abs(b) \div 100000 ELSE Abs(b) \div 100000000))
LinesNear(e, F(_), k) == LET U == LinesOf(e.X, e.axis) IN
   ShapeOk(e.R, e.X, e.axis) /\ \A i \in 1..Len(U) : Close(EntryOf(e.R, e.axis, i), F(U[i]), e, k)
\* a vector with one entry per line
VectorNear(e, F(_), k) == LET U == LinesOf(e.X, e.axis) IN Len(e.v) = Len(U) /\ \A i \in 1..Len(U) : Close(e.v[i], F(U[i]), e, k)
SameShape(R, X) == Len(R) = Len(X) /\ \A i \in 1..Len(X) : Len(R[i]) = Len(X[i])
\* a matrix of the same shape, entry by entry
EntriesNear(e, F(_), k) == SameShape(e.R, e.X) /\ \A i \in 1..Len(e.X) : \A j \in 1..Len(e.X[1]) : Close(e.R[i][j], F(e.X[i][j]), e, k)
Transposed(X) == Strict([j \in 1..Len(X[1]) |-> Column(X, j)])
\* the lines of a result of the same shape as X
OfSame(e) == IF SameShape(e.R, e.X) THEN LinesOf(e.R, e.axis) ELSE <<>>
PowerOf(x, e) == CASE e.k >= 0 -> MulDiv(Pow(x, e.k), e.s, Pow(e.q, e.k))
                   [] e.k = -1 -> MulDiv(e.s, e.q, x)
                   [] e.k = -2 -> SqrtFix(MulDiv(x, e.s, e.q), e.s)
SignOf(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Result(e) ==
  CASE e.f = "sum"  -> LET F(u) == SumOf(u, e.q, e.s) IN LinesNear(e, F, 0)
    [] e.f = "mean" -> LET F(u) == MeanOf(u, e.q, e.s) IN LinesNear(e, F, 0)
    [] e.f = "var"  -> LET F(u) == VarOf(u, e.q, e.s) IN LinesNear(e, F, 0)
    [] e.f = "median" -> LET F(u) == MedianOf(u, e.q, e.s) IN VectorNear(e, F, 0)
    [] e.f = "mode" -> LET U == LinesOf(e.X, e.axis) IN
                       /\ ShapeOk(e.R, e.X, e.axis) /\ ShapeOk(e.N, e.X, e.axis)
                       /\ \A i \in 1..Len(U) : IsMode(U[i], EntryOf(e.R, e.axis, i), EntryOf(e.N, e.axis, i))
    [] e.f = "cumsum" -> LET U == LinesOf(e.X, e.axis)
                             V == IF e.axis # -1 THEN OfSame(e) ELSE IF \A i \in 1..Len(e.R) : Len(e.R[i]) = 1 THEN <<Column(e.R, 1)>> ELSE <<>> IN
                         Len(U) = Len(V) /\ \A i \in 1..Len(U) : Len(V[i]) = Len(U[i]) /\ \A k \in 1..Len(U[i]) : Close(V[i][k], MulDiv(Prefix(U[i], k), e.s, e.q), e, 0)
    [] e.f = "cov" -> LET T == Transposed(e.X) IN
                      Len(e.R) = Len(T) /\ \A i \in 1..Len(T) : Len(e.R[i]) = Len(T) /\ \A j \in 1..Len(T) : Close(e.R[i][j], CovOf(T[i], T[j], e.q, e.s), e, 0)
    [] e.f = "center" -> LET T == Transposed(e.X) IN
                      SameShape(e.R, e.X) /\ \A j \in 1..Len(T) : LET c == Deviations(T[j]) IN \A i \in 1..Len(e.X) : Close(e.R[i][j], MulDiv(c[i], e.s, e.q * Len(e.X)), e, 0)
    [] e.f = "norm" -> LET F(u) == NormOf(u, e.p, e.q, e.s) IN IF e.vector THEN VectorNear(e, F, 0) ELSE LinesNear(e, F, 0)
    [] e.f = "abs" -> LET F(x) == MulDiv(Abs(x), e.s, e.q) IN EntriesNear(e, F, 0)
    [] e.f = "sign" -> LET F(x) == SignOf(x) * e.s IN EntriesNear(e, F, 0)
    [] e.f = "power" -> LET F(x) == PowerOf(x, e) IN EntriesNear(e, F, 0)
    [] e.f = "sigmoid" -> LET F(x) == L!Sigmoid(MulDiv(x, e.s, e.q), e.s) IN EntriesNear(e, F, 2)
    [] e.f = "softmax" -> LET U == LinesOf(e.X, e.axis) V == OfSame(e) IN
                          Len(V) = Len(U) /\ \A i \in 1..Len(U) : LET p == L!Softmax(Scaled(U[i], e.q, e.s), e.s) IN
                             Near(Sum(V[i]), e.s, Len(V[i]) + 3 * e.c) /\ \A j \in 1..Len(p) : V[i][j] >= 0 /\ Close(V[i][j], p[j], e, 2)
    [] e.f = "logsumexp" -> LET F(u) == L!LogSumExp(Scaled(u, e.q, e.s), e.s) IN VectorNear(e, F, 2)
    [] e.f = "entropy" -> Close(e.a, EntropyOf(e.u, e.w, e.q, e.s), e, 7)
    [] e.f = "gini" -> Close(e.a, GiniOf(e.u, e.w, e.s), e, 7)
    [] e.f = "gauss" -> Close(e.a, GaussOf(e.x, e.m, e.v, e.q, e.s), e, 4)
    [] e.f = "mse" -> Close(e.a, MulDiv(Dot(Minus(e.u, e.w), Minus(e.u, e.w), 1), e.s, e.q * e.q * Len(e.u)), e, 0)
    [] e.f = "explained" -> Close(e.a, ExplainedOf(e.u, e.w, e.s), e, 7)
    [] e.f = "distance" -> Close(e.a, NormOf(Minus(e.u, e.w), e.p, e.q, e.s), e, 2)
    [] e.f = "diagmat" -> Len(e.R) = Len(e.u) /\ \A i \in 1..Len(e.u) : Len(e.R[i]) = Len(e.u) /\ \A j \in 1..Len(e.u) : e.R[i][j] = IF i = j THEN e.u[i] ELSE 0
\* what has to be refused: an axis or order that does not exist, shapes that do not fit
Refusal(e) == e.f \in {"axis", "order", "shape", "weights"} /\ ~e.ok
Step(e) == CASE e.e = "Begin" -> TRUE
             [] e.e = "Call" -> e.ok /\ e.same /\ Holds(Result(e))
             [] e.e = "Refuse" -> Refusal(e)
             [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Log) /\ l' = l + 1 /\ Step(Log[l])
Spec == Init /\ [][Next]_l
==============================================================================
