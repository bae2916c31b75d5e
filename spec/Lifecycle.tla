------------------------------- MODULE Lifecycle -------------------------------
(* The contract every estimator shares.  An object remembers which data set it *)
(* was fitted to last, and nothing else: there is one function from (data set, *)
(* question, query row) to answers, and every object, whatever was fitted or   *)
(* asked before, answers every row of every batch with that function.          *)
EXTENDS FixMath, FiniteSets, TLC
None == -1
\* answers known so far: a function from keys to rows of numbers
SameNumber(a, b) == a = b \/ Near(a, b, 3 + Abs(a) \div 1000000)
SameAnswer(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : SameNumber(a[j], b[j])
Key(d, q, r) == <<d, q, r>>
\* the answers to one batch agree with what is known and among themselves
Consistent(known, d, q, rows, out) ==
  /\ Len(out) = Len(rows)
  /\ \A i \in 1..Len(rows) : /\ Key(d, q, rows[i]) \in DOMAIN known => SameAnswer(out[i], known[Key(d, q, rows[i])])
                             /\ \A j \in 1..Len(rows) : rows[i] = rows[j] => SameAnswer(out[i], out[j])
\* whether fitting a data set succeeds is a function of the data set as well
SameFate(fate, d, v) == d \in DOMAIN fate => fate[d] = v
Decided(fate, d, v) == [k \in DOMAIN fate \cup {d} |-> IF k = d THEN v ELSE fate[k]]
Learn(known, d, q, rows, out) ==
  [k \in DOMAIN known \cup {Key(d, q, rows[i]) : i \in 1..Len(rows)} |->
     IF k \in DOMAIN known THEN known[k] ELSE out[CHOOSE i \in 1..Len(rows) : Key(d, q, rows[i]) = k]]
==============================================================================
