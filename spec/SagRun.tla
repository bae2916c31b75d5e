-------------------------------- MODULE SagRun -------------------------------
(* Stochastic average gradient: the incrementally updated average is, at every *)
(* step, the mean of the table of most recent gradients (C11).                 *)
EXTENDS Sgd
CONSTANTS NB, G, Steps
VARIABLES hist, total, pos, step     \* total = NB * running average
vars == <<hist, total, pos, step>>
Init == hist = [k \in 1..NB |-> <<0>>] /\ total = 0 /\ pos = 1 /\ step = 0
Next == /\ step < Steps
        /\ \E g \in (-G)..G :
             /\ total' = total + (g - hist[pos][1])
             /\ hist' = [hist EXCEPT ![pos] = <<g>>]
        /\ pos' = (pos % NB) + 1 /\ step' = step + 1
Spec == Init /\ [][Next]_vars
C11 == total = SlotSum(hist, 1)
==============================================================================
