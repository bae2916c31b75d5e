------------------------------- MODULE KnnVote -------------------------------
(* The classifier's design: scan the training points keeping the k nearest,    *)
(* then vote.  TLC checks on every small instance that whatever way ties are   *)
(* broken the answer is admitted by VoteOk, and that VoteOk admits nothing but *)
(* what some choice of k nearest points justifies (C03).                       *)
EXTENDS Neighbors
CONSTANTS N, Coord, Labels
VARIABLES data, labels, q, k, seen, best, answer
vars == <<data, labels, q, k, seen, best, answer>>

D(i) == Abs(data[i][1] - q[1])
Init == /\ data \in [1..N -> [1..1 -> Coord]] /\ labels \in [1..N -> Labels]
        /\ q \in [1..1 -> Coord] /\ k \in 1..N
        /\ seen = 0 /\ best = {} /\ answer = 0
\* keep point seen+1 and, when there are k+1, drop one of the farthest
Scan == /\ seen < N
        /\ seen' = seen + 1
        /\ LET F == best \union {seen + 1} IN
           IF Cardinality(F) <= k THEN best' = F
           ELSE \E x \in {i \in F : \A j \in F : D(i) >= D(j)} : best' = F \ {x}
        /\ UNCHANGED <<data, labels, q, k, answer>>
Votes(S, c) == Cardinality({i \in S : labels[i] = c})
Vote == /\ seen = N /\ answer = 0
        /\ \E c \in {labels[i] : i \in best} :
             /\ \A d \in Labels : Votes(best, c) >= Votes(best, d)
             /\ answer' = c
        /\ UNCHANGED <<data, labels, q, k, seen, best>>
Next == Scan \/ Vote
Spec == Init /\ [][Next]_vars

BestSoFar == \A i \in 1..seen, j \in best : i \notin best => D(i) >= D(j)
SizeRight == Cardinality(best) = IF seen < k THEN seen ELSE k
Admitted == answer # 0 => VoteOk("manhattan", data, labels, q, k, answer)
\* VoteOk is exactly "some choice of k nearest points gives c the most votes"
Justified(c) == \E S \in SUBSET (1..N) :
   /\ Cardinality(S) = k
   /\ \A i \in S, j \in (1..N) \ S : D(i) <= D(j)
   /\ Votes(S, c) > 0 /\ \A d \in Labels : Votes(S, c) >= Votes(S, d)
VoteOkExact == seen = 0 => \A c \in Labels : VoteOk("manhattan", data, labels, q, k, c) <=> Justified(c)
==============================================================================
