------------------------------- MODULE KMeansRun -------------------------------
(* Lloyd's algorithm, assignment and averaging as separate steps, from every   *)
(* choice of starting rows of every small data set.                            *)
EXTENDS KMeans
CONSTANTS Vals, MaxRows, Dim, K, MaxIter, Stops
VARIABLES X, C, a, iter, stop, phase
vars == <<X, C, a, iter, stop, phase>>
Rows == [1..Dim -> Vals]
Init == /\ X \in UNION {[1..n -> Rows] : n \in 1..MaxRows}
        /\ \E s \in [1..K -> 1..Len(X)] : C = [k \in 1..K |-> AsCentroid(X[s[k]])]
        /\ a = <<>> /\ iter = 0 /\ stop \in Stops /\ phase = "assign"
Assign == phase = "assign" /\ iter < MaxIter /\ a' \in Assignments(X, C, 0) /\ phase' = "average" /\ UNCHANGED <<X, C, iter, stop>>
GiveUp == phase = "assign" /\ iter = MaxIter /\ phase' = "done" /\ UNCHANGED <<X, C, a, iter, stop>>
DoAverage == /\ phase = "average" /\ C' = Average(X, C, a) /\ iter' = iter + 1
             /\ phase' = IF Moved(C, C') < stop THEN "done" ELSE "assign"
             /\ UNCHANGED <<X, a, stop>>
Next == Assign \/ GiveUp \/ DoAverage
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* centroids are averages of rows: finite, and inside the range of the data
C22_InRange == \A k \in 1..K, j \in 1..Dim : C[k][2] > 0 /\ \E i, h \in 1..Len(X) : X[i][j] * C[k][2] <= C[k][1][j] /\ C[k][1][j] <= X[h][j] * C[k][2]
\* neither giving rows to nearest centroids nor averaging increases the total within-cluster distance
C22_Descent == [][(a # <<>> /\ X' = X) => Cost(X, C', a') <= Cost(X, C, a) + Len(X)]_vars
\* stopping by the movement test with an infinitesimal tolerance means a fixed point
C22_FixedPoint == (phase = "done" /\ iter < MaxIter /\ stop = 1) => Average(X, C, a) = C /\ a \in Assignments(X, C, 0)
\* so the labels of the rows alone tell that it has settled
C22_Settled == (phase = "done" /\ iter < MaxIter /\ stop = 1) => Settled(X, [i \in 1..Len(X) |-> a[X[i]]], 0)
C22_Terminates == <>(phase = "done")
\* the set the trace check uses contains every outcome
C22_Outcomes == phase = "done" => \E s \in [1..K -> 1..Len(X)] : C \in Finals(X, [k \in 1..K |-> AsCentroid(X[s[k]])], MaxIter, stop, 0, 0)
==============================================================================
