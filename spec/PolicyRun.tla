------------------------------- MODULE PolicyRun -----------------------------
(* Velocity policies in units where mu = 1/2: the recurrences unfold to the    *)
(* documented sums over the gradient history (C14).                            *)
EXTENDS Sgd
CONSTANTS G, Steps
VARIABLES v, w, grads, wm, wn
vars == <<v, w, grads, wm, wn>>
U == 2 ^ (Steps + 1)      \* unit: values are multiples of 1/U
Init == v = 0 /\ w = 0 /\ grads = <<>> /\ wm = 0 /\ wn = 0
Next == /\ Len(grads) < Steps
        /\ \E g \in (-G)..G :
             LET v2 == v \div 2 + g * U IN
             /\ v' = v2
             /\ wm' = wm - v2                                  \* momentum
             /\ wn' = wn - (v2 + (v2 - v) \div 2)              \* Nesterov
             /\ grads' = Append(grads, g)
        /\ UNCHANGED w
Spec == Init /\ [][Next]_vars
\* weights are minus the sum over steps s of g[s] * (1 + mu + ... )
RECURSIVE Geo(_)
Geo(k) == IF k = 0 THEN U ELSE U + Geo(k - 1) \div 2          \* U * (1 + ... + mu^k)
C14_Momentum == wm = - Sum([s \in 1..Len(grads) |-> grads[s] * Geo(Len(grads) - s)])
\* Nesterov is momentum looked ahead by mu times the last velocity change
C14_Nesterov == wn = - Sum([s \in 1..Len(grads) |-> grads[s] * Geo(Len(grads) - s + 1)])
==============================================================================
