-------------------------------- MODULE TgRun --------------------------------
(* Truncated gradient on one weight: every sequence of gradient moves and      *)
(* penalty increments.                                                         *)
EXTENDS Sgd
CONSTANTS M, Pens, Steps
VARIABLES w, q, u, step, pre
vars == <<w, q, u, step, pre>>
Init == w = 0 /\ q = 0 /\ u = 0 /\ step = 0 /\ pre = 0
Next == /\ step < Steps /\ step' = step + 1
        /\ \E dw \in (-M)..M, dp \in Pens :
             /\ u' = u + dp /\ pre' = w + dw
             /\ w' = TgWeight(w + dw, q, u + dp)
             /\ q' = TgNet(w + dw, q, u + dp)
Spec == Init /\ [][Next]_vars
\* between zero and the weight before the penalty
C12_Shrinks == IF pre >= 0 THEN 0 <= w /\ w <= pre ELSE pre <= w /\ w <= 0
C12_Bounded == Abs(q) <= u
\* a surviving weight has received exactly the accumulated penalty
C12_Exact == w > 0 => q = -u
C12_Exact2 == w < 0 => q = u
==============================================================================
