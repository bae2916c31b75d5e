------------------------------- MODULE LbfgsRun ------------------------------
(* Design of the L-BFGS loop with the numerical outcomes left open: the ring    *)
(* of correction pairs, the ring of past objective values and the line search   *)
(* are run for every sequence of trial verdicts and stopping-test outcomes.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MemSize, Past, MaxIter, MaxTrials, Policy
VARIABLES phase, k, trials, lo, hi, r, accepted, ring, end, pfx, visited, why
vars == <<phase, k, trials, lo, hi, r, accepted, ring, end, pfx, visited, why>>
U == 64                                  \* the first step of a search
Init == /\ phase = "trial" /\ k = 1 /\ trials = 0 /\ lo = 0 /\ hi = -1 /\ r = U
        /\ accepted = <<>> /\ ring = [i \in 0..(MemSize - 1) |-> 0] /\ end = 0
        /\ pfx = [i \in 0..(Past - 1) |-> IF i = 0 THEN 0 ELSE -1] /\ visited = <<>> /\ why = "none"
\* verdicts: "high" (decrease not sufficient), "short" (slope still steep), "steep" (slope overshoots), "ok"
Trial == /\ phase = "trial"
         /\ trials' = trials + 1
         /\ \E v \in {"high", "short", "steep", "ok"} :
              IF v = "ok" THEN /\ phase' = "test" /\ accepted' = Append(accepted, k)
                               /\ UNCHANGED <<lo, hi, r, why>>
              ELSE IF trials + 1 >= MaxTrials
                   THEN phase' = "done" /\ why' = "search" /\ UNCHANGED <<lo, hi, r, accepted>>
              ELSE /\ phase' = "trial" /\ UNCHANGED <<accepted, why>>
                   /\ LET h2 == IF v # "short" THEN r ELSE hi
                          l2 == IF v = "short" THEN r ELSE lo
                      IN /\ hi' = h2 /\ lo' = l2
                         /\ r' = IF Policy = "backtracking" THEN (IF v = "short" THEN 2 * r ELSE r \div 2)
                                 ELSE IF h2 < 0 THEN 2 * r ELSE (l2 + h2) \div 2
         /\ UNCHANGED <<k, ring, end, pfx, visited>>
\* after an accepted trial of iteration k
Test == /\ phase = "test"
        /\ \E gradient, decrease \in BOOLEAN :
             IF gradient THEN phase' = "done" /\ why' = "gradient" /\ UNCHANGED <<k, ring, end, pfx, visited, trials, lo, hi, r>>
             ELSE IF Past > 0 /\ k >= Past /\ decrease
                  THEN phase' = "done" /\ why' = "decrease" /\ UNCHANGED <<k, ring, end, pfx, visited, trials, lo, hi, r>>
             ELSE IF k >= MaxIter
                  THEN phase' = "done" /\ why' = "limit" /\ UNCHANGED <<k, ring, end, pfx, visited, trials, lo, hi, r>>
             ELSE LET bound == IF MemSize <= k THEN MemSize ELSE k
                      e2 == (end + 1) % MemSize
                      r2 == [ring EXCEPT ![end] = k]
                  IN /\ phase' = "trial" /\ k' = k + 1 /\ trials' = 0 /\ lo' = 0 /\ hi' = -1 /\ r' = U /\ why' = why
                     /\ pfx' = IF Past = 0 THEN pfx ELSE [pfx EXCEPT ![k % Past] = k]
                     /\ ring' = r2 /\ end' = e2
                     \* the first loop walks back from the newest pair
                     /\ visited' = [i \in 1..bound |-> r2[(e2 + i * (MemSize - 1)) % MemSize]]
        /\ UNCHANGED accepted
Next == Trial \/ Test
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the two loops use exactly the last min(MemSize, k) pairs, newest first
C15_Memory == k > 1 => visited = [i \in 1..Len(visited) |-> k - i] /\ Len(visited) = (IF MemSize < k - 1 THEN MemSize ELSE k - 1)
\* the relative-decrease test compares with the value Past iterations ago
C15_Past == phase = "test" /\ Past > 0 /\ k >= Past => pfx[k % Past] = k - Past
C15_Bracket == Policy = "bracketing" /\ hi >= 0 => lo <= hi /\ lo <= r /\ r <= hi
C15_Stops == phase = "done" => why # "none" /\ (why = "limit" => k = MaxIter)
C15_Terminates == <>(phase = "done")
==============================================================================
