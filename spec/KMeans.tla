-------------------------------- MODULE KMeans --------------------------------
(* Lloyd's algorithm over exact rational centroids.  A centroid is <<s, c>>,   *)
(* the vector of coordinate sums of c > 0 rows; a clustering is a tuple of     *)
(* centroids.  Every choice the algorithm leaves open (the starting rows, the  *)
(* nearest centroid among several equally near ones) is a choice here too.     *)
EXTENDS FixMath, FiniteSets, TLC
SC == 100000      \* unit of movements
DSC == 5000      \* unit of squared distances
RECURSIVE VSum(_)
VSum(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN p[2] + VSum(S \ {p})
\* squared distance from x to centroid m in units of DSC, rounded down
Dist2(x, m) == LET u == [j \in 1..Len(x) |-> m[2] * x[j] - m[1][j]] IN Ratio(u, u, <<m[2]>>, <<m[2]>>, DSC)
\* the clusters x may be given to: those whose centroid is nearest, up to tol
Nearest(x, C, tol) == LET D == [k \in 1..Len(C) |-> Dist2(x, C[k])] IN {k \in 1..Len(C) : \A j \in 1..Len(C) : D[k] <= D[j] + tol}
\* all ways of giving every distinct row a nearest cluster
Assignments(X, C, tol) == LET R == {X[i] : i \in 1..Len(X)}
                              F == [r \in R |-> Nearest(r, C, tol)]
                              Sure == {r \in R : Cardinality(F[r]) = 1}
                              Fixed == [r \in Sure |-> CHOOSE k \in F[r] : TRUE]
                          IN {Fixed @@ g : g \in {g \in [R \ Sure -> 1..Len(C)] : \A r \in R \ Sure : g[r] \in F[r]}}
Members(X, a, k) == {i \in 1..Len(X) : a[X[i]] = k}
\* the mean of the rows given to a cluster; a cluster without rows keeps its centroid
Average(X, C, a) == [k \in 1..Len(C) |-> LET M == Members(X, a, k) IN
   IF M = {} THEN C[k] ELSE <<[j \in 1..Len(X[1]) |-> VSum({<<i, X[i][j]>> : i \in M})], Cardinality(M)>>]
\* distance between two centroids in units of SC
Move(m, n) == LET u == [j \in 1..Len(m[1]) |-> (m[1][j] * n[2] - n[1][j] * m[2]) * 1000] IN MulDiv(Norm2(u), SC \div 1000, m[2] * n[2])
Moved(C, D) == SumTo([k \in 1..Len(C) |-> Move(C[k], D[k])], Len(C))
\* every clustering a run started at one of the clusterings F may end with, on top of those in done
RECURSIVE FinalsFrom(_, _, _, _, _, _, _)
FinalsFrom(X, F, done, left, stop, mtol, tol) ==
  IF left = 0 \/ F = {} THEN done \cup F ELSE
  LET steps == TLCEval(UNION {{LET D == TLCEval(Average(X, C, a)) IN <<D, Moved(C, D)>> : a \in Assignments(X, C, tol)} : C \in F})
      ended == {s[1] : s \in {s \in steps : s[2] = 0 \/ s[2] < stop + mtol}}
      going == {s[1] : s \in {s \in steps : s[2] > 0 /\ s[2] >= stop - mtol}}
  IN FinalsFrom(X, going, done \cup ended, left - 1, stop, mtol, tol)
Finals(X, C, left, stop, mtol, tol) == FinalsFrom(X, {C}, {}, left, stop, mtol, tol)
\* squared distance of all rows to the centroids they are given to
Cost(X, C, a) == SumTo([i \in 1..Len(X) |-> Dist2(X[i], C[a[X[i]]])], Len(X))
\* a clustering that no longer moves is described by the labels of its rows alone: the centroids of the labels in use
Mean(X, a, k) == LET M == {i \in 1..Len(X) : a[i] = k} IN <<[j \in 1..Len(X[1]) |-> VSum({<<i, X[i][j]>> : i \in M})], Cardinality(M)>>
Means(X, a) == [k \in {a[i] : i \in 1..Len(a)} |-> Mean(X, a, k)]
\* label k is right for row x: no centroid in use is nearer
NoneNearer(x, k, C, tol) == LET D == TLCEval([j \in DOMAIN C |-> Dist2(x, C[j])]) IN \A j \in DOMAIN C : D[k] <= D[j] + tol
Settled(X, a, tol) == LET C == TLCEval(Means(X, a)) IN \A i \in 1..Len(X) : NoneNearer(X[i], a[i], C, tol)
AsCentroid(x) == <<x, 1>>
==============================================================================
