-------------------------------- MODULE LinRun -------------------------------
(* Every small design, target and pair of weight vectors.  A weight vector     *)
(* that passes the normal equations exactly is a minimiser of the penalised    *)
(* squares (no other weight vector on the grid beats it), the lasso conditions *)
(* hold exactly for the minimisers of the lasso objective, and along a growing *)
(* ridge penalty the exact solutions never grow.                               *)
EXTENDS LinearModels
CONSTANTS N, XV, YV, WV, S
VARIABLES X, y, lam, ic, w, v, phase
vars == <<X, y, lam, ic, w, v, phase>>
Grid(k) == {S * x : x \in -k..k}
Halves(k) == {(S \div 2) * x : x \in -(2 * k)..(2 * k)}
Dim == IF ic THEN 2 ELSE 1
Init == /\ X \in [1..N -> [1..1 -> Grid(XV)]] /\ y \in [1..N -> Grid(YV)]
        /\ lam \in {0, S, 3 * S} /\ ic \in BOOLEAN
        /\ w = <<>> /\ v = <<>> /\ phase = "data"
Solutions == {u \in [1..Dim -> Halves(WV)] : NormalEq(X, y, u, lam, ic, S, 0)}
Fit == /\ phase = "data" /\ Solutions # {} /\ w' \in Solutions /\ phase' = "fitted" /\ UNCHANGED <<X, y, lam, ic, v>>
Compare == /\ phase = "fitted" /\ v' \in [1..Dim -> Halves(WV)] /\ phase' = "compared" /\ UNCHANGED <<X, y, lam, ic, w>>
Refit == /\ phase = "fitted" /\ lam < 3 * S /\ lam' = lam + 2 * S /\ v' = w
         /\ phase' = "path" /\ w' \in {u \in [1..Dim -> Halves(WV)] : NormalEq(X, y, u, lam + 2 * S, ic, S, 0)} /\ UNCHANGED <<X, y, ic>>
Lasso == /\ phase = "data" /\ phase' = "lasso" /\ w' \in [1..Dim -> Halves(WV)] /\ LassoOpt(X, y, w', lam, ic, S, 0) /\ v' = v /\ UNCHANGED <<X, y, lam, ic>>
LassoCmp == /\ phase = "lasso" /\ phase' = "lcompared" /\ v' \in [1..Dim -> Halves(WV)] /\ UNCHANGED <<X, y, lam, ic, w>>
Next == Fit \/ Compare \/ Refit \/ Lasso \/ LassoCmp
Spec == Init /\ [][Next]_vars
C17_Optimal == phase = "compared" => RidgeObj(X, y, w, lam, ic, S) <= RidgeObj(X, y, v, lam, ic, S)
\* the first fit of the path had full rank or a positive penalty, or was not the shortest solution
C17_Shrinks == phase = "path" => Norm2(w) <= Norm2(v)
C17_LassoOptimal == phase = "lcompared" => LassoObj(X, y, w, lam, ic, S) <= LassoObj(X, y, v, lam, ic, S) + Len(X)
==============================================================================
