-------------------------------- MODULE LossRun ------------------------------
(* On every small data set and pair of weights: the specified gradient is a    *)
(* (sub)gradient of the specified value - all these losses are convex, so      *)
(* f(v) >= f(w) + g(w).(v - w) for all v - and values are finite and >= 0.     *)
EXTENDS Losses
CONSTANTS Kinds, XV, WV, S
VARIABLES D, w, v
Rows == [1..1 -> {S * x : x \in -XV..XV}]
W1 == [1..1 -> {S * x : x \in -WV..WV}]
Init == /\ \E k \in Kinds, X \in [1..2 -> Rows], lam \in {0, S} :
           \E y \in [1..2 -> CASE k = "log" -> {0, 1} [] k = "softmax" -> {0, 1} [] k = "hinge" -> {-1, 1} [] OTHER -> {-S, 0, 2 * S}] :
             D = [kind |-> k, s |-> S, X |-> X, y |-> y, lam |-> lam, par |-> S]
        /\ IF D.kind = "softmax" THEN w \in [1..2 -> W1] /\ v \in [1..2 -> W1] ELSE w \in W1 /\ v \in W1
Next == UNCHANGED <<D, w, v>>
Spec == Init /\ [][Next]_<<D, w, v>>
Diff(a, b) == [j \in 1..Len(a) |-> a[j] - b[j]]
Slope(g) == IF D.kind = "softmax" THEN Dot(g[1], Diff(v[1], w[1]), S) + Dot(g[2], Diff(v[2], w[2]), S) ELSE Dot(g, Diff(v, w), S)
Grads == IF D.kind = "softmax" THEN {SmGrad(D, w)}
         ELSE {GradOf(D, w, sl) : sl \in {f \in [1..2 -> UNION {SampleSlopes(D, Score(D, i, w), D.y[i], 0) : i \in 1..2}] :
                                            \A i \in 1..2 : f[i] \in SampleSlopes(D, Score(D, i, w), D.y[i], 0)}}
C16_Finite == IsNum(Value(D, w)) /\ Value(D, w) >= -2
C16_Subgradient == \A g \in Grads : Value(D, v) >= Value(D, w) + Slope(g) - 40
==============================================================================
