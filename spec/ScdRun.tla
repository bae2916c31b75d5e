-------------------------------- MODULE ScdRun -------------------------------
(* Coordinate descent on every small point: the chosen step has non-negative   *)
(* predicted descent and, on a separable quadratic whose curvature does not    *)
(* exceed rho, never increases the regularised objective.                      *)
EXTENDS Sgd, TLC
CONSTANTS R, Lams, Steps, RN, RD, Curv     \* curvature of the quadratic = Curv/RD <= RN/RD
Grid == {RN * x : x \in (-R)..R}
VARIABLES w, target, lam, step, obj
vars == <<w, target, lam, step, obj>>
\* start points are multiples of RN and Steps is small, so that steps stay on the grid
Grad(v) == [j \in DOMAIN v |-> (Curv * (v[j] - target[j])) \div RD]
Obj(v) == Sum([j \in DOMAIN v |-> Curv * (v[j] - target[j]) * (v[j] - target[j]) + 2 * RD * lam * Abs(v[j])])
Init == /\ w \in [1..2 -> Grid] /\ target \in [1..2 -> Grid] /\ lam \in Lams /\ step = 0
        /\ obj = Obj(w)
Next == /\ step < Steps /\ step' = step + 1 /\ UNCHANGED <<target, lam>>
        /\ \E j \in ScdBest(w, Grad(w), RN, RD, lam) :
             LET w2 == [w EXCEPT ![j] = w[j] + ScaledEta(w[j], Grad(w)[j], RN, RD, lam) \div RN] IN
               /\ Assert(ScdStepOk(w, w2, Grad(w), RN, RD, lam), "step")
               /\ w' = w2 /\ obj' = Obj(w2)
Spec == Init /\ [][Next]_vars
C13_Descent == \A j \in DOMAIN w : Descent(w[j], Grad(w)[j], RN, RD, lam) >= 0
C13_Downhill == [][obj' <= obj]_vars
==============================================================================
