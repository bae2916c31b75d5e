------------------------------ MODULE Neighbors ------------------------------
(* What nearest-neighbour answers mean (C01, C02, C03).                        *)
(*                                                                             *)
(* Points and queries have integer coordinates.  A distance is compared in its *)
(* exact integer form: the sum of squares for "euclidean", the sum of absolute *)
(* differences for "manhattan", the largest one for "chebyshev"; DistOk ties a *)
(* reported (fixed-point) distance to the exact one.                           *)
EXTENDS FixMath, FiniteSets

DS == 1000     \* scale of logged distances

Diff(p, q) == [i \in 1..Len(p) |-> Abs(p[i] - q[i])]
RECURSIVE MaxTo(_, _)
MaxTo(u, n) == IF n = 0 THEN 0 ELSE LET m == MaxTo(u, n - 1) IN IF u[n] > m THEN u[n] ELSE m

\* exact distance in the metric's own integer measure (squared for euclidean)
ExactDist(metric, p, q) ==
  LET d == Diff(p, q) IN
  CASE metric = "euclidean" -> Dot(d, d, 1)
    [] metric = "manhattan" -> Sum(d)
    [] metric = "chebyshev" -> MaxTo(d, Len(d))

AllDists(metric, data, q) == [i \in 1..Len(data) |-> ExactDist(metric, data[i], q)]

\* a reported distance d (scale DS) agrees with the exact measure m
DistOk(metric, d, m) ==
  IF metric = "euclidean" /\ m > 0
  THEN /\ IsNum(d) /\ d > 0
       /\ CmpProd(d - 1, d - 1, m, DS * DS) <= 0
       /\ CmpProd(d + 1, d + 1, m, DS * DS) >= 0
  ELSE Near(d, m * DS, 1)

Injective(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

(* One row of a kNN answer: indices ix (0-based) and distances ds.             *)
KnnRowOk(metric, data, q, k, ix, ds) ==
  /\ Len(ix) = k /\ Len(ds) = k
  /\ \A i \in 1..k : ix[i] \in 0..(Len(data) - 1)
  /\ Injective(ix)
  /\ LET D == AllDists(metric, data, q)
         chosen == {ix[i] + 1 : i \in 1..k}
     IN /\ \A i \in 1..k : DistOk(metric, ds[i], D[ix[i] + 1])
        /\ \A i \in 1..(k - 1) : D[ix[i] + 1] <= D[ix[i + 1] + 1]
        /\ \A j \in 1..Len(data) : j \notin chosen => D[j] >= D[ix[k] + 1]

KnnOk(metric, data, qs, k, ixs, dss) ==
  /\ Len(ixs) = Len(qs) /\ Len(dss) = Len(qs)
  /\ \A r \in 1..Len(qs) : KnnRowOk(metric, data, qs[r], k, ixs[r], dss[r])

(* Radius search.  The radius is given exactly by r (scale 1000) and by        *)
(* rn / rd, the exact radius measure: D <= radius iff D * rd <= rn.            *)
Ball(metric, data, q, rn, rd) ==
  LET D == AllDists(metric, data, q) IN {j \in 1..Len(data) : CmpProd(D[j], rd, rn, 1) <= 0}

\* one reported list (pairs <<0-based index, distance>>) against its ball
RadiusRowOk(metric, data, q, ball, ix, ds) ==
  /\ Len(ix) = Len(ds)
  /\ \A i \in 1..Len(ix) : ix[i] \in 0..(Len(data) - 1)
  /\ Injective(ix)
  /\ {ix[i] + 1 : i \in 1..Len(ix)} = ball
  /\ \A i \in 1..Len(ix) : DistOk(metric, ds[i], ExactDist(metric, data[ix[i] + 1], q))

RECURSIVE NonEmptyBalls(_, _, _, _, _, _)
\* the query rows with a non-empty ball, in order: <<row, ball>>
NonEmptyBalls(metric, data, qs, rn, rd, n) ==
  IF n = 0 THEN <<>>
  ELSE LET b == Ball(metric, data, qs[n], rn, rd)
           before == NonEmptyBalls(metric, data, qs, rn, rd, n - 1)
       IN IF b = {} THEN before ELSE Append(before, <<n, b>>)

RadiusOk(metric, data, qs, rn, rd, ixs, dss) ==
  LET nb == NonEmptyBalls(metric, data, qs, rn, rd, Len(qs)) IN
  /\ Len(ixs) = Len(nb) /\ Len(dss) = Len(nb)
  /\ \A m \in 1..Len(nb) : RadiusRowOk(metric, data, qs[nb[m][1]], nb[m][2], ixs[m], dss[m])

(* Majority vote: some admissible choice of k nearest points makes the label a *)
(* most frequent one.  Points strictly closer than the k-th distance must be   *)
(* chosen, those at the k-th distance may be.                                  *)
KthDist(D, k) ==
  CHOOSE v \in {D[i] : i \in DOMAIN D} :
    /\ Cardinality({i \in DOMAIN D : D[i] < v}) < k
    /\ Cardinality({i \in DOMAIN D : D[i] <= v}) >= k

VoteOk(metric, data, labels, q, k, lab) ==
  LET D == AllDists(metric, data, q)
      kd == KthDist(D, k)
      must == {i \in DOMAIN D : D[i] < kd}
      may == {i \in DOMAIN D : D[i] = kd}
      free == k - Cardinality(must)
      L == {labels[i] : i \in must \union may}
      C(S, c) == Cardinality({i \in S : labels[i] = c})
      \* lab gets as many of the tied points as possible; the rest must be
      \* distributed so that no other label exceeds it
      own == IF C(may, lab) < free THEN C(may, lab) ELSE free
      top == C(must, lab) + own
      rest == free - own
      MinI(a, b) == IF a < b THEN a ELSE b
      room(c) == LET r == top - C(must, c) IN IF r < 0 THEN -1 ELSE MinI(r, C(may, c))
      others == L \ {lab}
      RECURSIVE Total(_)
      Total(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN room(c) + Total(S \ {c})
  IN /\ lab \in L
     /\ \A c \in others : room(c) >= 0
     /\ Total(others) >= rest
==============================================================================
