------------------------------- MODULE SgdRun -------------------------------
(* A whole run of a stochastic optimizer: every shuffle outcome and every      *)
(* sequence of batch losses.  Checked: batches partition the full batches of   *)
(* the epoch (C09); the counter-based stopping rule is the declarative one and *)
(* the run ends within the epoch limit (C10).                                  *)
EXTENDS Sgd, TLC
CONSTANTS N, B, Shuffle, MaxIter, Pat, TolB, Losses
VARIABLES ep, j, used, sum, st, sums, phase
vars == <<ep, j, used, sum, st, sums, phase>>
NB == NumBatches(N, B)
Init == ep = 0 /\ j = 0 /\ used = {} /\ sum = 0 /\ st = Stop0 /\ sums = <<>>
        /\ phase = IF MaxIter = 0 THEN "failed" ELSE "epoch"
Seqs(S, k) == {f \in [1..k -> S] : Cardinality({f[i] : i \in 1..k}) = k}
Batch == /\ phase = "epoch" /\ j < NB
         /\ \E rows \in Seqs(1..N, B), loss \in Losses :
              /\ BatchOk(rows, N, B, j, used, Shuffle)
              /\ used' = used \cup {rows[i] : i \in 1..B}
              /\ sum' = sum + loss
         /\ j' = j + 1 /\ UNCHANGED <<ep, st, sums, phase>>
EndEpoch == /\ phase = "epoch" /\ j = NB
            /\ LET s == StopStep(st, sum, TolB) IN
                 /\ st' = s
                 /\ phase' = IF Converged(s, Pat) THEN "converged" ELSE IF ep + 1 = MaxIter THEN "failed" ELSE "epoch"
            /\ sums' = Append(sums, sum) /\ ep' = ep + 1 /\ j' = 0 /\ used' = {} /\ sum' = 0
Next == Batch \/ EndEpoch
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE MinOf(_, _)
MinOf(s, k) == IF k = 1 THEN s[1] ELSE Min(MinOf(s, k - 1), s[k])
\* epoch k failed to improve on the best of the epochs before it
Failed(k) == k > 1 /\ sums[k] > MinOf(sums, k - 1) - TolB
StopsAt(k) == k >= Pat /\ \A i \in (k - Pat + 1)..k : Failed(i)
C09 == Cardinality(used) = j * B /\ j <= NB
C10 == /\ Len(sums) <= MaxIter
       /\ phase = "converged" <=> (Len(sums) > 0 /\ StopsAt(Len(sums)))
       /\ \A k \in 1..(Len(sums) - 1) : ~StopsAt(k)
       /\ phase = "failed" => Len(sums) = MaxIter
Terminates == <>(phase # "epoch")
==============================================================================
