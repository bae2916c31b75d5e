------------------------------ MODULE LifecycleGen ------------------------------
(* Random histories of two estimator objects, written as scripts for the       *)
(* driver: <<0, o>> replace o by a new object, <<1, o, d>> fit o to data set   *)
(* d, <<2, o, q, r...>> ask question q about the rows r, <<3, o, p>> make o a   *)
(* copy of p.                                                                  *)
EXTENDS Lifecycle, Json
CONSTANTS Objects, Sets, Questions, Rows, MaxLen
VARIABLES last, hist, done
vars == <<last, hist, done>>
Init == last = [o \in Objects |-> None] /\ hist = <<>> /\ done = FALSE
Op(op) == hist' = Append(hist, op) /\ UNCHANGED done
Fit(o, d) == last' = [last EXCEPT ![o] = d] /\ Op(<<1, o, d>>)
New(o) == last[o] # None /\ last' = [last EXCEPT ![o] = None] /\ Op(<<0, o>>)
Copy(o, p) == o # p /\ last[p] # None /\ last' = [last EXCEPT ![o] = last[p]] /\ Op(<<3, o, p>>)
Ask(o, q, rows) == last[o] # None /\ UNCHANGED last /\ Op(<<2, o, q>> \o rows)
Batches == UNION {[1..n -> Rows] : n \in 1..3}
Next == IF Len(hist) < MaxLen
        THEN \E o \in Objects : \/ \E d \in Sets : Fit(o, d)
                                \/ New(o)
                                \/ \E p \in Objects : Copy(o, p)
                                \/ \E q \in Questions : Ask(o, q, RandomElement(Batches)) \/ Ask(o, q, RandomElement(Batches))
        ELSE ~done /\ done' = TRUE /\ UNCHANGED <<last, hist>> /\ PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_vars
==============================================================================
