-------------------------------- MODULE ArraysRun --------------------------------
(* The loops of the utilities, step by step, on every small input:             *)
(*  dedup   marks later copies of the current row, then moves to the next row  *)
(*          that is not marked                                                 *)
(*  combine walks the bit vectors with k ones from the largest down            *)
(*  merge   takes from both sides in turn                                      *)
(*  differ  sorts, drops repetitions, and walks both sequences                 *)
(*  unique  keeps the first position of every value                            *)
EXTENDS Arrays
CONSTANTS Ops, Vals, MaxLen
VARIABLES op, u, v, k, i, j, marks, out, aux, done
vars == <<op, u, v, k, i, j, marks, out, aux, done>>
Seqs(n) == [1..n -> Vals]
AllSeqs == UNION {Seqs(n) : n \in 0..MaxLen}
Bits(n, m) == [b \in 1..n |-> b <= m]
Init == /\ op \in Ops /\ u \in AllSeqs /\ (op \in {"dedup", "unique"} => u # <<>>)
        /\ v \in (IF op \in {"merge", "differ"} THEN AllSeqs ELSE {<<>>})
        /\ k \in (IF op = "combine" THEN 1..Len(u) ELSE {0})
        /\ i = 1 /\ j = (IF op = "dedup" THEN 2 ELSE 1) /\ out = <<>> /\ done = FALSE
        /\ marks = (IF op = "combine" THEN Bits(Len(u), k) ELSE [b \in 1..Len(u) |-> b = 1]) /\ aux = <<>>
Keep == UNCHANGED <<op, u, v, k>>
\* ---- dedup: i is the current row, j the row compared with it
Unmarked == {b \in 1..Len(u) : ~marks[b]}
Dedupe == /\ op = "dedup" /\ ~done /\ Keep /\ UNCHANGED aux
          /\ IF out = <<>> THEN out' = <<u[1]>> /\ UNCHANGED <<i, j, marks, done>>
             ELSE IF j <= Len(u) THEN /\ marks' = [marks EXCEPT ![j] = @ \/ u[j] = u[i]] /\ j' = j + 1 /\ UNCHANGED <<i, out, done>>
             ELSE IF Unmarked = {} THEN done' = TRUE /\ UNCHANGED <<i, j, marks, out>>
             ELSE LET n == CHOOSE b \in Unmarked : \A c \in Unmarked : b <= c IN
                  i' = n /\ j' = n + 1 /\ marks' = [marks EXCEPT ![n] = TRUE] /\ out' = Append(out, u[n]) /\ UNCHANGED done
\* ---- combine: the previous permutation of the bits in lexicographic order
CanStep(b) == {p \in 1..(Len(b) - 1) : b[p] /\ ~b[p + 1]}
PrevBits(b) == LET p == CHOOSE p \in CanStep(b) : \A o \in CanStep(b) : o <= p
                   ones == Cardinality({c \in (p + 1)..Len(b) : b[c]}) + 1
               IN [c \in 1..Len(b) |-> IF c < p THEN b[c] ELSE IF c = p THEN FALSE ELSE c - p <= ones]
Combine == /\ op = "combine" /\ ~done /\ Keep /\ UNCHANGED <<i, j, aux>>
           /\ out' = Append(out, PickFrom(u, {c \in 1..Len(u) : marks[c]}, 1))
           /\ IF CanStep(marks) = {} THEN done' = TRUE /\ UNCHANGED marks ELSE marks' = PrevBits(marks) /\ UNCHANGED done
\* ---- merge
Merge == /\ op = "merge" /\ ~done /\ Keep /\ UNCHANGED <<marks, aux>>
         /\ IF i <= Len(u) /\ j <= Len(v) THEN out' = out \o <<u[i], v[j]>> /\ i' = i + 1 /\ j' = j + 1 /\ UNCHANGED done
            ELSE out' = out \o SubSeq(u, i, Len(u)) \o SubSeq(v, j, Len(v)) /\ done' = TRUE /\ UNCHANGED <<i, j>>
\* ---- difference: aux is v in order; smallest first
RECURSIVE Ins(_, _)
Ins(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Ins(Tail(s), x)
RECURSIVE SortS(_)
SortS(s) == IF s = <<>> THEN <<>> ELSE Ins(SortS(Tail(s)), s[1])
RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Squeeze(Tail(s)) ELSE <<s[1]>> \o Squeeze(Tail(s))
Differ == /\ op = "differ" /\ ~done /\ Keep /\ UNCHANGED marks
          /\ LET a == Squeeze(SortS(u)) b == SortS(v) IN
             /\ aux' = b
             /\ IF i > Len(a) THEN done' = TRUE /\ UNCHANGED <<i, j, out>>
                ELSE IF j > Len(b) \/ a[i] < b[j] THEN out' = Append(out, a[i]) /\ i' = i + 1 /\ UNCHANGED <<j, done>>
                ELSE IF a[i] = b[j] THEN i' = i + 1 /\ j' = j + 1 /\ UNCHANGED <<out, done>>
                ELSE j' = j + 1 /\ UNCHANGED <<i, out, done>>
\* ---- unique: aux holds the positions
Uniq == /\ op = "unique" /\ ~done /\ Keep /\ UNCHANGED <<j, marks>>
        /\ IF i > Len(u) THEN done' = TRUE /\ UNCHANGED <<i, out, aux>>
           ELSE IF u[i] \in Range(out) THEN i' = i + 1 /\ UNCHANGED <<out, aux, done>>
           ELSE out' = Append(out, u[i]) /\ aux' = Append(aux, i - 1) /\ i' = i + 1 /\ UNCHANGED done
Next == Dedupe \/ Combine \/ Merge \/ Differ \/ Uniq
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
C26_Dedup == (op = "dedup" /\ done) => out = Dedup(u, 1)
C26_Combinations == (op = "combine" /\ done) => IsCombinations(out, u, k)
C26_Merge == (op = "merge" /\ done) => out = Interleave(u, v) /\ SameBag(out, u \o v)
C26_Difference == (op = "differ" /\ done) => IsDifference(out, u, v)
C26_Unique == (op = "unique" /\ done) => IsUnique(out, aux, u)
\* a sorted line, its argsort and its extremes fit together
C26_Sorting == op = "unique" => LET s == SortS(u) IN
   /\ IsSorted(s, u, FALSE) /\ \A p \in 0..(Len(u) - 1) : IsArgmin(p, u) <=> u[p + 1] = s[1]
   /\ \A p \in 0..(Len(u) - 1) : IsArgmax(p, u) <=> u[p + 1] = s[Len(u)]
   /\ \A f \in [1..Len(u) -> 0..(Len(u) - 1)] : IsArgsort(f, u, FALSE) => [c \in 1..Len(u) |-> u[f[c] + 1]] = s
C26_Terminates == <>done
==============================================================================
