---------------------------- MODULE AprioriTrace -----------------------------
(* Trace validation of mining (C05) and transaction encoding (C06).            *)
EXTENDS Encoding, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, last        \* last: the rules of the latest successful fit
vars == <<l, last>>
NonEmptySubsets(S) == (SUBSET S) \ {{}}
MinCount(e) == (Len(e.db) * e.sup) \div 64

MineOk(e) ==
  LET db == [i \in 1..Len(e.db) |-> SetOf(e.db[i])]
      minc == MinCount(e)
      singles == {i \in Items(e.db) : Cardinality({t \in 1..Len(db) : i \in db[t]}) >= minc}
  IN IF ~e.ok THEN singles = {}          \* mining may only fail when no single item is frequent
     ELSE LET count == TLCEval([S \in NonEmptySubsets(singles) |-> Cardinality({t \in 1..Len(db) : S \subseteq db[t]})])
              freq == {S \in DOMAIN count : count[S] >= minc /\ count[S] > 0 /\ Cardinality(S) > 1}
              want == UNION {{<<A, S \ A>> : A \in {B \in NonEmptySubsets(S) : B # S /\ count[S] * 16 >= e.con * count[B]}} : S \in freq}
              n == Len(e.lhs)
          IN /\ Len(e.rhs) = n /\ Len(e.conf) = n
             /\ \A i \in 1..n : /\ Cardinality(SetOf(e.lhs[i])) = Len(e.lhs[i])
                                /\ Cardinality(SetOf(e.rhs[i])) = Len(e.rhs[i])
             /\ n = Cardinality(want)
             /\ {<<SetOf(e.lhs[i]), SetOf(e.rhs[i])>> : i \in 1..n} = want
             /\ \A i \in 1..n : Near(e.conf[i],
                  MulDiv(1000000, count[SetOf(e.lhs[i]) \union SetOf(e.rhs[i])], count[SetOf(e.lhs[i])]), 2)

EncodeOk(e) == IsEncoding(e.db, e.rows, e.cols, e.ri, e.ci, e.vi)

None == [lhs |-> <<>>, rhs |-> <<>>, conf |-> <<>>]
Step(e) == CASE e.e = "Begin" -> last' = None
             [] e.e = "Mine" -> /\ Holds(MineOk(e))
                                /\ last' = IF e.ok THEN [lhs |-> e.lhs, rhs |-> e.rhs, conf |-> e.conf] ELSE None
             [] e.e = "Rules" -> e.ok /\ [lhs |-> e.lhs, rhs |-> e.rhs, conf |-> e.conf] = last /\ UNCHANGED last
             [] e.e = "Encode" -> e.ok /\ Holds(EncodeOk(e)) /\ UNCHANGED last
             [] OTHER -> FALSE
Init == l = 1 /\ last = None
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
==============================================================================
