----------------------------- MODULE LifecycleTrace -----------------------------
(* Trace validation: histories of two objects of one estimator.  The answers   *)
(* known so far are the function every later answer has to agree with.         *)
EXTENDS Lifecycle, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, last, known, fate
vars == <<l, last, known, fate>>
Begin(e) == last' = [o \in 1..2 |-> None] /\ known' = <<>> /\ fate' = <<>>
Make(e) == last' = [last EXCEPT ![e.o] = None] /\ UNCHANGED <<known, fate>>
Fit(e) == e.ok /\ e.same /\ SameFate(fate, e.d, TRUE) /\ fate' = Decided(fate, e.d, TRUE) /\ last' = [last EXCEPT ![e.o] = e.d] /\ UNCHANGED known
\* a fit that does not converge says so, always for the same data; the object then answers nothing until it is fitted again
Refused(e) == SameFate(fate, e.d, FALSE) /\ fate' = Decided(fate, e.d, FALSE) /\ last' = [last EXCEPT ![e.o] = None] /\ UNCHANGED known
\* a copy answers as its original does, and neither is touched by what happens to the other
\* (an object that cannot be copied is moved, which leaves nothing behind)
Copy(e) == e.ok /\ last' = [last EXCEPT ![e.o] = last[e.p], ![e.p] = IF e.gone THEN None ELSE @] /\ UNCHANGED <<known, fate>>
Ask(e) == /\ e.ok /\ e.same /\ last[e.o] # None
          /\ Holds(Consistent(known, last[e.o], e.q, e.rows, e.out))
          /\ known' = Learn(known, last[e.o], e.q, e.rows, e.out)
          /\ UNCHANGED <<last, fate>>
Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Make" -> Make(e)
             [] e.e = "Fit" -> Fit(e)
             [] e.e = "Refused" -> Refused(e)
             [] e.e = "Copy" -> Copy(e)
             [] e.e = "Ask" -> Ask(e)
             [] OTHER -> FALSE
Init == l = 1 /\ last = [o \in 1..2 |-> None] /\ known = <<>> /\ fate = <<>>
Next == l <= Len(Log) /\ l' = l + 1 /\ Step(Log[l])
Spec == Init /\ [][Next]_vars
==============================================================================
