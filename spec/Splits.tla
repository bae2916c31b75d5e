--------------------------------- MODULE Splits ---------------------------------
(* Shuffling, splitting and random draws: what their results may be.  A data   *)
(* set is a sequence of pairs <<row, label>>.                                  *)
EXTENDS FixMath, FiniteSets
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
\* the same elements, each as often, in any order
SameBag(s, t) == LET u == Strict(s) v == Strict(t) IN Len(u) = Len(v) /\ \A i \in 1..Len(u) : Count(u, u[i]) = Count(v, u[i])
IsPermutation(s, n) == Len(s) = n /\ {s[i] : i \in 1..n} = 0..(n - 1)
Orders(n) == {s \in [1..n -> 0..(n - 1)] : IsPermutation(s, n)}
Pairs(X, y) == Strict([i \in 1..Len(X) |-> <<X[i], y[i]>>])
Column(X, j) == [i \in 1..Len(X) |-> X[i][j]]
Columns(X) == IF Len(X) = 0 THEN <<>> ELSE Strict([j \in 1..Len(X[1]) |-> Column(X, j)])
\* the size of the training part, for a ratio of num/den
TrainSize(n, num, den) == (n * num) \div den
\* the parts of a split without shuffling are the two ends of the data
IsSplit(D, a, b, num, den, shuffled) ==
  /\ Len(a) = TrainSize(Len(D), num, den)
  /\ IF shuffled THEN SameBag(D, a \o b) ELSE D = a \o b
\* the (0-based) rows on the two sides of a threshold, in ascending order
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
IsDivision(Y, f, t, keep, drop) == LET X == Strict(Y) IN
  /\ Ascending(keep) /\ Ascending(drop)
  /\ {keep[i] : i \in 1..Len(keep)} = {i \in 0..(Len(X) - 1) : X[i + 1][f] <= t}
  /\ {drop[i] : i \in 1..Len(drop)} = {i \in 0..(Len(X) - 1) : X[i + 1][f] > t}
==============================================================================
