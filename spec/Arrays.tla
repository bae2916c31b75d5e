---------------------------------- MODULE Arrays ----------------------------------
(* What the ordering and selection utilities return.                           *)
EXTENDS FixMath, FiniteSets
Column(X, j) == Strict([i \in 1..Len(X) |-> X[i][j]])
RECURSIVE Flatten(_, _)
Flatten(X, i) == IF i > Len(X) THEN <<>> ELSE X[i] \o Flatten(X, i + 1)
\* the lines of a matrix: its columns (0), its rows (1), or all of it row by row (-1)
LinesOf(X, axis) == IF axis = 0 THEN (IF Len(X) = 0 THEN <<>> ELSE Strict([j \in 1..Len(X[1]) |-> Column(X, j)])) ELSE IF axis = 1 THEN X ELSE <<Flatten(X, 1)>>
SameShape(R, X) == Len(R) = Len(X) /\ \A i \in 1..Len(X) : Len(R[i]) = Len(X[i])
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
Range(s) == {s[i] : i \in 1..Len(s)}
Before(a, b, reverse) == IF reverse THEN a >= b ELSE a <= b
Ordered(s, reverse) == \A i \in 1..(Len(s) - 1) : Before(s[i], s[i + 1], reverse)
IsSorted(r, u, reverse) == SameBag(u, r) /\ Ordered(r, reverse)
\* 0-based positions that put u in order
IsArgsort(p, u, reverse) == /\ Len(p) = Len(u) /\ Range(p) = 0..(Len(u) - 1)
                            /\ Ordered([i \in 1..Len(u) |-> u[p[i] + 1]], reverse)
IsArgmax(i, u) == i \in 0..(Len(u) - 1) /\ \A j \in 1..Len(u) : u[j] <= u[i + 1]
IsArgmin(i, u) == i \in 0..(Len(u) - 1) /\ \A j \in 1..Len(u) : u[j] >= u[i + 1]
\* every value once, and a position of it
IsUnique(vals, pos, u) == /\ Len(pos) = Len(vals) /\ Range(vals) = Range(u)
                          /\ \A i, j \in 1..Len(vals) : i # j => vals[i] # vals[j]
                          /\ \A i \in 1..Len(vals) : pos[i] \in 0..(Len(u) - 1) /\ u[pos[i] + 1] = vals[i]
\* k-element choices of positions, in any order of choices, elements in the order of u
Choices(n, k) == {s \in SUBSET (1..n) : Cardinality(s) = k}
RECURSIVE PickFrom(_, _, _)
PickFrom(u, s, i) == IF i > Len(u) THEN <<>> ELSE (IF i \in s THEN <<u[i]>> ELSE <<>>) \o PickFrom(u, s, i + 1)
IsCombinations(r, u, k) ==
  /\ Len(r) = Cardinality(Choices(Len(u), k))
  /\ \A i \in 1..Len(r) : Count(r, r[i]) = Cardinality({s \in Choices(Len(u), k) : PickFrom(u, s, 1) = r[i]})
\* the rows without repetitions, in order of first appearance
RECURSIVE Dedup(_, _)
Dedup(X, i) == IF i > Len(X) THEN <<>> ELSE (IF \E j \in 1..(i - 1) : X[j] = X[i] THEN <<>> ELSE <<X[i]>>) \o Dedup(X, i + 1)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] = b[i] THEN LexLess(a, b, i + 1) ELSE a[i] < b[i]
IsRowSorted(R, X, reverse) == SameBag(X, R) /\ \A i \in 1..(Len(R) - 1) : ~(IF reverse THEN LexLess(R[i], R[i + 1], 1) ELSE LexLess(R[i + 1], R[i], 1))
\* the distinct elements of u that are not in v, in ascending order
IsDifference(r, u, v) == Range(r) = Range(u) \ Range(v) /\ \A i \in 1..(Len(r) - 1) : r[i] < r[i + 1]
\* one element of each in turn, then the rest of the longer one
RECURSIVE Interleave(_, _)
Interleave(u, v) == IF u = <<>> THEN v ELSE IF v = <<>> THEN u ELSE <<u[1], v[1]>> \o Interleave(Tail(u), Tail(v))
\* 0-based, both ends included
Slice(u, a, b) == SubSeq(u, a + 1, b + 1)
Slice2(X, a, b, c, d) == Strict([i \in 1..(b - a + 1) |-> Slice(X[a + i], c, d)])
\* every line k times: along axis 0 the rows, along axis 1 the columns
IsRepeat(R, X, k, axis) == LET U == LinesOf(X, 1 - axis) V == LinesOf(R, 1 - axis) IN
  /\ Len(V) = 0 \/ Len(U) = 0 \/ Len(V[1]) = Len(U[1])
  /\ Len(V) = k * Len(U) /\ \A i \in 1..Len(U) : Count(V, U[i]) = k * Count(U, U[i])
Clip(x, hi, lo) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
Positions(u) == PickFrom([i \in 1..Len(u) |-> i - 1], {i \in 1..Len(u) : u[i] # 0}, 1)
==============================================================================
