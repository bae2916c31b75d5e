---------------------------- MODULE KDTreeSearch -----------------------------
(* The design of the KD-tree search: median splits on the axis of largest      *)
(* spread, a box per child, and a depth-first search that drops a child whose  *)
(* box is too far from the query.  TLC explores every small data set, query,   *)
(* k / radius and leaf size and checks that dropping a child never loses an    *)
(* answer (C01, C02).                                                          *)
EXTENDS Neighbors

CONSTANTS N,         \* points per data set
          Coord,     \* coordinates of data and query points
          Dim,
          Leaf,      \* leaf capacities
          Metrics,
          Modes      \* subset of {"knn", "radius"}

VARIABLES data, q, metric, k, leaf, mode, stack, found, pc
vars == <<data, q, metric, k, leaf, mode, stack, found, pc>>

Points == [1..Dim -> Coord]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

Spread(S, a) == Max({data[i][a] : i \in S}) - Min({data[i][a] : i \in S})
Axis(S) == CHOOSE a \in 1..Dim : /\ \A b \in 1..Dim : Spread(S, a) >= Spread(S, b)
                                 /\ \A b \in 1..(a - 1) : Spread(S, b) < Spread(S, a)
\* the lower half of S along axis a in stable sorted order
Lower(S, a) == {i \in S : Cardinality({j \in S : data[j][a] < data[i][a] \/ (data[j][a] = data[i][a] /\ j < i)})
                            < Cardinality(S) \div 2}
Node(S, lo, hi) == [pts |-> S, lo |-> lo, hi |-> hi]
Children(nd) ==
  LET a == Axis(nd.pts) L == Lower(nd.pts, a) R == nd.pts \ L
      v == Min({data[i][a] : i \in R})
  IN <<Node(L, nd.lo, [nd.hi EXCEPT ![a] = v]), Node(R, [nd.lo EXCEPT ![a] = v], nd.hi)>>
Root == Node(1..N, [a \in 1..Dim |-> Min({data[i][a] : i \in 1..N})],
                   [a \in 1..Dim |-> Max({data[i][a] : i \in 1..N})])

Clamp(nd) == [a \in 1..Dim |-> IF q[a] > nd.hi[a] THEN nd.hi[a] ELSE IF q[a] < nd.lo[a] THEN nd.lo[a] ELSE q[a]]
BoxDist(nd) == ExactDist(metric, Clamp(nd), q)
D(i) == ExactDist(metric, data[i], q)

\* current k-th best distance (infinite while fewer than k were found)
Inf == 1000000
Bound(F) == IF mode = "radius" THEN k
            ELSE IF Cardinality(F) < k THEN Inf ELSE Max({D(i) : i \in F})
Worth(nd) == IF mode = "radius" THEN BoxDist(nd) <= Bound(found) ELSE BoxDist(nd) < Bound(found)

RECURSIVE KeepBest(_)
KeepBest(F) == IF Cardinality(F) <= k THEN F
               ELSE KeepBest(F \ {CHOOSE i \in F : \A j \in F : D(i) >= D(j)})

\* renaming the points changes nothing: only sorted data sets are explored
RECURSIVE Code(_, _)
Code(p, n) == IF n = 0 THEN 0 ELSE 10 * Code(p, n - 1) + p[n]
Init == /\ data \in {d \in [1..N -> Points] : \A i \in 1..(N - 1) : Code(d[i], Dim) <= Code(d[i + 1], Dim)}
        /\ q \in Points
        /\ metric \in Metrics /\ leaf \in Leaf /\ mode \in Modes
        /\ k \in (IF mode = "knn" THEN 1..N ELSE 0..(Dim * Max(Coord)))
        /\ found = {} /\ pc = "start" /\ stack = <<>>

\* the root is always opened
Start == /\ pc = "start" /\ pc' = "run"
         /\ stack' = <<Root>>
         /\ UNCHANGED <<data, q, metric, k, leaf, mode, found>>

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Scan == /\ pc = "run" /\ stack # <<>>
        /\ Cardinality(Top.pts) <= leaf
        /\ found' = IF mode = "knn" THEN KeepBest(found \union Top.pts)
                    ELSE found \union {i \in Top.pts : D(i) <= k}
        /\ stack' = Rest
        /\ UNCHANGED <<data, q, metric, k, leaf, mode, pc>>
Open == /\ pc = "run" /\ stack # <<>>
        /\ Cardinality(Top.pts) > leaf
        /\ LET c == Children(Top)
               keepL == Worth(c[1]) keepR == Worth(c[2])
           IN stack' = Rest \o (IF keepL THEN <<c[1]>> ELSE <<>>) \o (IF keepR THEN <<c[2]>> ELSE <<>>)
        /\ UNCHANGED <<data, q, metric, k, leaf, mode, found, pc>>
Finish == /\ pc = "run" /\ stack = <<>> /\ pc' = "done"
          /\ UNCHANGED <<data, q, metric, k, leaf, mode, stack, found>>
Next == Start \/ Scan \/ Open \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------ properties ------------------------------- *)
InBox == \A s \in 1..Len(stack) : \A i \in stack[s].pts : \A a \in 1..Dim :
            stack[s].lo[a] <= data[i][a] /\ data[i][a] <= stack[s].hi[a]
Pending == UNION {stack[s].pts : s \in 1..Len(stack)}
\* a point that is neither found nor pending cannot improve the answer
NothingLost == pc = "run" => \A i \in 1..N : i \notin found /\ i \notin Pending =>
                  IF mode = "knn" THEN D(i) >= Bound(found) ELSE D(i) > k
EachOnce == \A s, t \in 1..Len(stack) : s # t => stack[s].pts \cap stack[t].pts = {}
Exact == pc = "done" =>
   IF mode = "radius" THEN found = {i \in 1..N : D(i) <= k}
   ELSE Cardinality(found) = k /\ \A i \in found, j \in (1..N) \ found : D(i) <= D(j)
Terminates == <>(pc = "done")
==============================================================================
