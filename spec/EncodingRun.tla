------------------------------- MODULE EncodingRun -------------------------------
(* The encoder as it goes: one pass collects the items, columns are numbered   *)
(* in ascending order, a second pass writes a triplet for every item of a      *)
(* transaction it has not seen in that transaction.                            *)
EXTENDS Encoding
CONSTANTS Vals, MaxRows, MaxLen
VARIABLES db, i, j, items, colOf, seen, ri, ci, vi, phase
vars == <<db, i, j, items, colOf, seen, ri, ci, vi, phase>>
Transactions == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Init == /\ db \in UNION {[1..n -> Transactions] : n \in 0..MaxRows}
        /\ i = 1 /\ j = 1 /\ items = {} /\ colOf = <<>> /\ seen = {} /\ ri = <<>> /\ ci = <<>> /\ vi = <<>> /\ phase = "collect"
Walk(i2, j2) == IF j + 1 <= Len(db[i]) THEN i2 = i /\ j2 = j + 1 ELSE i2 = i + 1 /\ j2 = 1
Collect == /\ phase = "collect" /\ i <= Len(db) /\ UNCHANGED <<db, colOf, seen, ri, ci, vi, phase>>
           /\ IF Len(db[i]) = 0 THEN i' = i + 1 /\ j' = 1 /\ UNCHANGED items
              ELSE items' = items \union {db[i][j]} /\ Walk(i', j')
\* numbering: the smallest item left gets the next column
Number == /\ phase = "collect" /\ i > Len(db)
          /\ colOf' = [x \in items |-> Cardinality({z \in items : z < x})]
          /\ phase' = "write" /\ i' = 1 /\ j' = 1 /\ UNCHANGED <<db, items, seen, ri, ci, vi>>
\* within a transaction the items are written in any order (a set is walked)
WriteOne == /\ phase = "write" /\ i <= Len(db) /\ UNCHANGED <<db, j, items, colOf, phase>>
            /\ IF SetOf(db[i]) \ seen = {} THEN i' = i + 1 /\ seen' = {} /\ UNCHANGED <<ri, ci, vi>>
               ELSE \E x \in SetOf(db[i]) \ seen :
                      /\ seen' = seen \union {x} /\ UNCHANGED i
                      /\ ri' = Append(ri, i - 1) /\ ci' = Append(ci, colOf[x]) /\ vi' = Append(vi, x)
Done == phase = "write" /\ i > Len(db) /\ phase' = "done" /\ UNCHANGED <<db, i, j, items, colOf, seen, ri, ci, vi>>
Next == Collect \/ Number \/ WriteOne \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
C06_Encoding == phase = "done" => IsEncoding(db, Len(db), Cardinality(items), ri, ci, vi)
C06_Lossless == phase = "done" => Decode(Len(db), ri, vi) = [r \in 1..Len(db) |-> SetOf(db[r])]
C06_OnePlace == \A a, b \in 1..Len(ri) : a # b => <<ri[a], ci[a]>> # <<ri[b], ci[b]>>
C06_Terminates == <>(phase = "done")
==============================================================================
