----------------------------- MODULE PerceptronRun ---------------------------
(* Perceptron training on separable data under every order of visiting the     *)
(* misclassified rows, and the decision rules on every small score vector.     *)
(* C18: training ends, within the bound the margin gives, in weights that      *)
(* label every training row with its own label; and the probabilities favour   *)
(* the class the scores favour.                                                *)
EXTENDS LinearModels, FiniteSets
CONSTANTS Pts, WInit, MaxUpd, ZV, S
VARIABLES X, y, w, upd, z
vars == <<X, y, w, upd, z>>
Sg(b) == IF b = 1 THEN 1 ELSE -1
\* integer arithmetic: entries are units here, the bias column is 1
Sc(i, u) == DotTo(Append(X[i], 1), u, Len(u))
Wrong == {i \in 1..Len(X) : Sg(y[i]) * Sc(i, w) <= 0}
\* rows lie on the side of their label of the line x1 = 0
Init == /\ X \in [1..2 -> {<<a, b>> : a \in Pts \cup {-p : p \in Pts}, b \in {-1, 0, 1}}]
        /\ y = [i \in 1..2 |-> IF X[i][1] > 0 THEN 1 ELSE 0]
        /\ w \in [1..3 -> WInit \cup {-p : p \in WInit}] /\ upd = 0 /\ z \in [1..3 -> {S * k : k \in ZV}]
Update == /\ Wrong # {} /\ \E B \in (SUBSET Wrong) \ {{}} :
             w' = [j \in 1..3 |-> w[j] + SumTo([i \in 1..2 |-> IF i \in B THEN Sg(y[i]) * Append(X[i], 1)[j] ELSE 0], 2)]
          /\ upd' = upd + 1 /\ UNCHANGED <<X, y, z>>
Next == Update
Spec == Init /\ [][Next]_vars
C18_Ends == upd <= MaxUpd
C18_OwnLabels == (~ENABLED Update) => \A i \in 1..2 : Best(<<0, Sc(i, w)>>, 0) = {y[i] + 1}
C18_ProbFavoursBest == LET p == Softmax(z, S) IN
   /\ Near(Sum(p), S, 3) /\ \A k \in 1..3 : p[k] >= 0 /\ p[k] <= S
   /\ \A k \in Best(z, 0) : p[k] >= SeqMax(p)
   /\ \A j, k \in 1..3 : z[j] > z[k] /\ z[j] - SeqMax(z) > -5 * S => p[j] > p[k]
==============================================================================
