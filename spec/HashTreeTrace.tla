---------------------------- MODULE HashTreeTrace ----------------------------
(* Trace validation of HashTree histories against the meaning of C04.          *)
EXTENDS FixMath, TLC, FiniteSets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cnt
vars == <<l, cnt>>
Put(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]
Empty == [x \in {} |-> 0]
AbsInsert(c, s) == IF s \in DOMAIN c THEN c ELSE Put(c, s, 0)
AbsAdd(c, s) == IF s \in DOMAIN c THEN [c EXCEPT ![s] = @ + 1] ELSE c
AbsReport(c, t) == {s \in DOMAIN c : c[s] >= t}

ReportOk(e) ==
  LET n == Len(e.sets) want == AbsReport(cnt, e.t) IN
  /\ Len(e.counts) = n /\ n = Cardinality(want)
  /\ {e.sets[i] : i \in 1..n} = want
  /\ \A i \in 1..n : e.counts[i] = cnt[e.sets[i]]

Step(e) == CASE e.e = "Begin" -> cnt' = Empty
             [] e.e = "Insert" -> e.ok /\ cnt' = AbsInsert(cnt, e.s)
             [] e.e = "Add" -> e.ok /\ cnt' = AbsAdd(cnt, e.s)
             [] e.e = "Report" -> e.ok /\ Holds(ReportOk(e)) /\ UNCHANGED cnt
             [] OTHER -> FALSE
Init == l = 1 /\ cnt = Empty
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
==============================================================================
