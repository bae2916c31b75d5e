------------------------------ MODULE LifecycleRun ------------------------------
(* A small estimator that keeps running statistics and a cache of its last     *)
(* answer, driven through all histories of fits, queries, copies and           *)
(* replacements of two objects; the contract of Lifecycle has to hold of what  *)
(* it answers.                                                                 *)
(* With Forgets = FALSE (statistics not cleared by a fit), Fresh = FALSE (cache *)
(* not cleared) or Deep = FALSE (copies share the statistics) it must not,     *)
(* which shows that the contract can tell.                                     *)
EXTENDS Lifecycle
CONSTANTS Objects, Sets, Queries, MaxSteps, Forgets, Fresh, Deep
\* the statistics live in cells; an object knows the number of its cell
VARIABLES cell, sum, count, cache, last, known, fate, steps, ok
vars == <<cell, sum, count, cache, last, known, fate, steps, ok>>
Samples(d) == CASE d = 1 -> <<4, 8>> [] d = 2 -> <<1, 1, 7>> [] d = 3 -> <<5>> [] d = 4 -> <<20>>
\* the fit refuses data whose statistics are out of reach
Limit == 15
Init == /\ cell = [o \in Objects |-> o] /\ sum = [o \in Objects |-> 0] /\ count = [o \in Objects |-> 0] /\ cache = [o \in Objects |-> <<>>]
        /\ last = [o \in Objects |-> None] /\ known = <<>> /\ fate = <<>> /\ steps = 0 /\ ok = TRUE
Fit(o, d) == LET t == (IF Forgets THEN 0 ELSE sum[cell[o]]) + Sum(Samples(d)) good == t <= Limit IN
  /\ UNCHANGED cell /\ sum' = [sum EXCEPT ![cell[o]] = t]
  /\ count' = [count EXCEPT ![cell[o]] = (IF Forgets THEN 0 ELSE @) + Len(Samples(d))]
  /\ cache' = [cache EXCEPT ![o] = IF Fresh THEN <<>> ELSE @]
  /\ last' = [last EXCEPT ![o] = IF good THEN d ELSE None]
  /\ ok' = SameFate(fate, d, good) /\ fate' = Decided(fate, d, good) /\ UNCHANGED known
\* an object made anew or copied needs a cell of its own, which an object that shared its cell may have kept
Own(o) == IF \E p \in Objects \ {o} : cell[p] = cell[o] THEN CHOOSE c \in Objects : \A p \in Objects : cell[p] # c ELSE cell[o]
New(o) == /\ (last[o] # None \/ count[cell[o]] > 0) /\ cell' = [cell EXCEPT ![o] = Own(o)]
          /\ sum' = [sum EXCEPT ![Own(o)] = 0] /\ count' = [count EXCEPT ![Own(o)] = 0]
          /\ cache' = [cache EXCEPT ![o] = <<>>] /\ last' = [last EXCEPT ![o] = None] /\ UNCHANGED <<known, fate, ok>>
\* with Deep = FALSE the copy shares the cell of its original
Copy(o, p) == /\ o # p /\ last[p] # None
              /\ IF Deep THEN /\ cell' = [cell EXCEPT ![o] = Own(o)]
                              /\ sum' = [sum EXCEPT ![Own(o)] = sum[cell[p]]] /\ count' = [count EXCEPT ![Own(o)] = count[cell[p]]]
                         ELSE cell' = [cell EXCEPT ![o] = cell[p]] /\ UNCHANGED <<sum, count>>
              /\ cache' = [cache EXCEPT ![o] = cache[p]] /\ last' = [last EXCEPT ![o] = last[p]] /\ UNCHANGED <<known, fate, ok>>
Answer(o, r) == IF cache[o] # <<>> /\ cache[o][1] = r THEN cache[o][2] ELSE <<r * count[cell[o]] - sum[cell[o]]>>
Ask(o, rows) == /\ last[o] # None
                /\ LET out == [i \in 1..Len(rows) |-> Answer(o, rows[i])] IN
                   /\ ok' = Consistent(known, last[o], 1, rows, out)
                   /\ known' = Learn(known, last[o], 1, rows, out)
                   /\ cache' = [cache EXCEPT ![o] = <<rows[Len(rows)], out[Len(rows)]>>]
                /\ UNCHANGED <<cell, sum, count, last, fate>>
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \E o \in Objects : \/ \E d \in Sets : Fit(o, d)
                              \/ New(o)
                              \/ \E p \in Objects : Copy(o, p)
                              \/ \E rows \in {<<a>> : a \in Queries} \cup {<<a, b>> : a, b \in Queries} : Ask(o, rows)
Spec == Init /\ [][Next]_vars
C25_Function == ok
==============================================================================
