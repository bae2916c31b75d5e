-------------------------------- MODULE Encoding --------------------------------
(* The sparse item matrix of a list of transactions, given by its triplets     *)
(* (row, column, value), 0-based.                                              *)
EXTENDS FixMath, FiniteSets
SetOf(s) == {s[i] : i \in 1..Len(s)}
Items(db) == UNION {SetOf(db[i]) : i \in 1..Len(db)}
\* columns are the distinct items in ascending order; an entry holds its item
IsEncoding(db, rows, cols, ri, ci, vi) ==
  LET items == Items(db) n == Len(ri) IN
  /\ rows = Len(db) /\ cols = Cardinality(items)
  /\ Len(ci) = n /\ Len(vi) = n
  /\ \A i \in 1..n : /\ ri[i] \in 0..(rows - 1)
                     /\ vi[i] \in SetOf(db[ri[i] + 1])
                     /\ ci[i] = Cardinality({x \in items : x < vi[i]})
  /\ \A r \in 1..rows : {vi[i] : i \in {j \in 1..n : ri[j] = r - 1}} \union {0} = SetOf(db[r]) \union {0}
  /\ \A i, j \in 1..n : i # j => <<ri[i], ci[i]>> # <<ri[j], ci[j]>>
\* what the matrix says about a transaction: the items of its row, whatever their order or number was
Decode(rows, ri, vi) == [r \in 1..rows |-> {vi[i] : i \in {j \in 1..Len(ri) : ri[j] = r - 1}}]
==============================================================================
