------------------------------ MODULE FactorTrace ------------------------------
(* Trace validation of the matrix factorisations of math::, one call per event *)
EXTENDS Factorisations, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Result(e) ==
  CASE e.f = "lu" -> IsLU(e.A, e.P, e.L, e.U, e.permute, e.q, e.c)
    [] e.f = "qr" -> IsQR(e.A, e.Q, e.R, e.full, e.q, e.c)
    [] e.f = "svd" -> IsSVD(e.A, e.U, e.s, e.V, e.full, e.q, e.c)
    \* the sketch sees everything of the matrix: compared with the full decomposition, itself judged here
    [] e.f = "randomized" -> /\ IsSVD(e.A, e.FU, e.fs, e.FV, FALSE, e.q, e.c)
                             /\ IsTop(e.A, e.U, e.s, e.V, e.k, e.fs, e.q, e.c)
                             /\ e.flipped => \A j \in 1..e.k : \E i \in 1..Len(e.U) : \A h \in 1..Len(e.U) : Abs(e.U[h][j]) <= e.U[i][j] + 10 * e.c
    [] e.f = "flip" -> IsFlip(e.U, e.V, e.RU, e.RV, e.byU)
    [] e.f = "pinv" -> IF e.cut = 0 THEN IsPinv(e.A, e.P, e.q, e.c) ELSE Diagonal(e.A) /\ IsPinv(Cut(e.A, e.cut), e.P, e.q, e.c)
    [] e.f = "pinvdiag" -> Diagonal(e.A) /\ IsScaledInverse(Cut(e.A, e.cut), e.P, e.q)
    [] e.f = "logdet" -> IsLogDet(e.A, e.v, e.c)
    [] e.f = "cholesky" -> ~MustRefuse(e.A) /\ (MustFactor(e.A) => IsCholesky(e.A, e.R, e.lower, e.q, e.c))
    [] e.f = "eig" -> IsEigen(e.A, e.v, e.V, e.q, e.c)
\* what must be refused
Refusal(e) == CASE e.f = "cholesky" -> IF MustFactor(e.A) THEN e.ok ELSE MustRefuse(e.A) => ~e.ok
                [] e.f = "sketch" -> e.ok = (e.k + e.p <= MinOf(e.n, e.d))
                [] e.f = "normalizer" -> ~e.ok
                [] e.f = "eig" -> Complex(e.A) /\ ~e.ok
                [] e.f = "empty" -> ~e.ok
Step(e) == CASE e.e = "Begin" -> TRUE
             [] e.e = "Call" -> e.ok /\ e.same /\ Holds(Result(e))
             [] e.e = "Refuse" -> Holds(Refusal(e))
             [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Log) /\ l' = l + 1 /\ Step(Log[l])
Spec == Init /\ [][Next]_l
==============================================================================
