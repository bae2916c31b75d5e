----------------------------- MODULE NaiveBayesRun ---------------------------
(* A learner that reads its training rows one at a time, in any order, keeping *)
(* per-label accumulators, and may be refitted.  C19: after reading all rows   *)
(* its statistics are those of the definition on exactly the last training     *)
(* set; the variance it derives from the sums of squares is the mean squared   *)
(* deviation; posteriors are a distribution that the prior and the likelihood  *)
(* move the right way.                                                         *)
EXTENDS NaiveBayes
CONSTANTS Vals, Labs, MaxRows, MaxFits, Gauss
VARIABLES todo, X, y, acc, fits
vars == <<todo, X, y, acc, fits>>
D == 1
NoAcc == [lab \in {} |-> <<0, 0, 0>>]
Sets == UNION {[1..k -> (Vals \X Labs)] : k \in 1..MaxRows}
Start == \E T \in Sets : /\ X' = [i \in 1..Len(T) |-> <<T[i][1]>>] /\ y' = [i \in 1..Len(T) |-> T[i][2]] /\ todo' = 1..Len(T)
Init == todo = {} /\ X = <<>> /\ y = <<>> /\ acc = NoAcc /\ fits = 0
Fit == todo = {} /\ fits < MaxFits /\ Start /\ acc' = NoAcc /\ fits' = fits + 1
Read == \E i \in todo :
          /\ todo' = todo \ {i}
          /\ acc' = LET a == IF y[i] \in DOMAIN acc THEN acc[y[i]] ELSE <<0, 0, 0>>
                    IN [lab \in DOMAIN acc \cup {y[i]} |-> IF lab = y[i] THEN <<a[1] + 1, a[2] + X[i][1], a[3] + X[i][1] * X[i][1]>> ELSE acc[lab]]
          /\ UNCHANGED <<X, y, fits>>
Next == Fit \/ Read
Spec == Init /\ [][Next]_vars
Done == todo = {} /\ fits > 0
M == Fitted(Gauss, LU \div 4, X, y)
C19_Statistics == Done => /\ DOMAIN acc = Range(M.labels)
                          /\ \A c \in 1..K(M) : acc[M.labels[c]] = <<M.n[c], M.s1[c][1], M.s2[c][1]>>
\* n^2 times the variance is n times the summed squared deviations from the mean
C19_Variance == Done => \A c \in 1..K(M) : LET n == M.n[c] IN
   n * (n * M.s2[c][1] - M.s1[c][1] * M.s1[c][1]) = Part(X, y, M.labels[c], LAMBDA x : (n * x[1] - M.s1[c][1]) * (n * x[1] - M.s1[c][1]))
Proper == ~Gauss \/ TopVar(M) > 0
C19_Distribution == (Done /\ Proper) => \A v \in Vals :
   LET z == Joint(M, <<v>>) p == Posterior(z)
   IN /\ Near(SumTo(p, Len(p)), LU, Len(p) + 1) /\ \A c \in 1..Len(p) : p[c] >= 0 /\ p[c] <= LU
      /\ \A c \in Best(z, 0) : p[c] >= SeqMax(p) - 1
C19_Prior == Done => Near(SumTo([c \in 1..K(M) |-> Prior(M, c)], K(M)), LU, K(M)) /\ \A c \in 1..K(M) : Prior(M, c) > 0
==============================================================================
