----------------------------- MODULE DecisionTree -----------------------------
(* Decision trees grown greedily.  A tree is never represented: a node is the  *)
(* set of training rows it holds and its depth, and the operators say whether  *)
(* it may or must stay a leaf, which splits are best (ties are all of them)    *)
(* and whether answers given to queries are those of SOME tree grown that way. *)
(*                                                                             *)
(* p describes one training: kind (gini, entropy, mse or mae), rows X, targets *)
(* y, minSplit, minLeaf, maxDepth, minDec (in units of sc), minVar (variance   *)
(* up to which a regression node is not split, in units of sc, -1: no limit),  *)
(* sc, and tol, the arithmetic uncertainty of a decrease in units of sc.       *)
EXTENDS FixMath, FiniteSets, TLC
Count(R, P(_)) == Cardinality({i \in R : P(i)})
Values(p, R) == {p.y[i] : i \in R}
RECURSIVE SumOver(_, _)
SumOver(R, f) == IF R = {} THEN 0 ELSE LET i == CHOOSE i \in R : TRUE IN f[i] + SumOver(R \ {i}, f)
Total(p, R) == SumOver(R, p.y)
Squares(p, R) == SumOver(R, [i \in R |-> p.y[i] * p.y[i]])
\* twice a median of the targets of R
Median2(p, R) == LET n == Cardinality(R)
                     Below(v) == Count(R, LAMBDA i : p.y[i] <= v)
                     lo == CHOOSE v \in Values(p, R) : 2 * Below(v) >= n /\ \A w \in Values(p, R) : 2 * Below(w) >= n => w >= v
                     hi == CHOOSE v \in Values(p, R) : 2 * Below(v) > n /\ \A w \in Values(p, R) : 2 * Below(w) > n => w >= v
                 IN lo + hi
\* n log2(n / c) in units of s
LOG2 == 693147
SurpriseOf(c, n, s) == MulDiv(c * LnFix(MulDiv(n, 1000000, c), 1000000), s, LOG2)
\* impurity of R times the number of its rows
Mass(p, R) == LET n == Cardinality(R)
                  C(v) == Count(R, LAMBDA i : p.y[i] = v)
                  V == Values(p, R) IN
  CASE p.kind = "gini" -> n * p.sc - SumOver(V, [v \in V |-> MulDiv(C(v) * C(v), p.sc, n)])
    [] p.kind = "entropy" -> SumOver(V, [v \in V |-> SurpriseOf(C(v), n, p.sc)])
    [] p.kind = "mse" -> Squares(p, R) * p.sc - MulDiv(Total(p, R) * Total(p, R), p.sc, n)
    [] p.kind = "mae" -> LET m == Median2(p, R) IN SumOver(R, [i \in R |-> MulDiv(Abs(2 * p.y[i] - m), p.sc, 2)])
Left(p, R, f, t) == {i \in R : 2 * p.X[i][f] <= t}      \* t is twice the threshold
Decrease(p, R, f, t) == LET L == Left(p, R, f, t) IN (Mass(p, R) - Mass(p, L) - Mass(p, R \ L)) \div Cardinality(R)
\* a threshold lies halfway between two neighbouring values of a feature (which may be equal)
Neighbours(p, R, f) == LET V == {p.X[i][f] : i \in R} IN
  {2 * v : v \in {v \in V : Count(R, LAMBDA i : p.X[i][f] = v) > 1}} \cup {a + b : <<a, b>> \in {ab \in V \X V : ab[1] < ab[2] /\ ~\E c \in V : ab[1] < c /\ c < ab[2]}}
MinSide(p) == IF p.minLeaf > 1 THEN p.minLeaf ELSE 1
Splits(p, R) == {s \in UNION {{f} \X Neighbours(p, R, f) : f \in 1..Len(p.X[1])} :
                   LET L == Left(p, R, s[1], s[2]) IN Cardinality(L) >= MinSide(p) /\ Cardinality(R) - Cardinality(L) >= MinSide(p)}
Spread(p, R) == Mass([p EXCEPT !.kind = "mse"], R) \div Cardinality(R)
\* the two sides of the decision to split; where the arithmetic cannot tell, both hold
Limited(p, R, d) == Cardinality(R) < p.minSplit \/ d > p.maxDepth
\* table: allowed splits with their decreases
Table(p, R) == LET S == Splits(p, R) IN [s \in S |-> Decrease(p, R, s[1], s[2])]
MaxOf(T) == LET D == {T[s] : s \in DOMAIN T} IN CHOOSE v \in D : \A w \in D : w <= v
Floor(p) == IF p.minDec > 0 THEN p.minDec ELSE 0
Tight(p, R) == p.minVar >= 0 /\ Spread(p, R) <= p.minVar + p.tol
Loose(p, R) == p.minVar < 0 \/ Spread(p, R) > p.minVar - p.tol
MayLeaf(p, R, d, T) == Limited(p, R, d) \/ Tight(p, R) \/ DOMAIN T = {} \/ MaxOf(T) <= Floor(p) + p.tol
BestSplits(p, R, d, T) == IF Limited(p, R, d) \/ ~Loose(p, R) \/ DOMAIN T = {} THEN {}
                          ELSE LET m == MaxOf(T) IN IF m < Floor(p) - p.tol THEN {} ELSE {s \in DOMAIN T : T[s] >= m - 2 * p.tol}
\* what a leaf holding R answers to q = [x, a, what]
LeafSays(p, R, q) ==
  LET n == Cardinality(R) IN
  CASE q.what = "prob" -> LET ls == p.labels IN Len(q.a) = Len(ls) /\ \A c \in 1..Len(ls) : Near(q.a[c], MulDiv(Count(R, LAMBDA i : p.y[i] = ls[c]), p.sc, n), 2 + p.tol)
    [] q.what = "label" -> q.a[1] \in Values(p, R) /\ \A v \in Values(p, R) : Count(R, LAMBDA i : p.y[i] = v) <= Count(R, LAMBDA i : p.y[i] = q.a[1])
    [] q.what = "mean" -> Near(q.a[1], MulDiv(Total(p, R), p.sc, n), 2 + p.tol)
RECURSIVE Grown(_, _, _, _)
Grown(p, R, d, Q) ==
  \/ Q = {}
  \/ LET T == IF Limited(p, R, d) THEN <<>> ELSE Table(p, R) IN
     \/ MayLeaf(p, R, d, T) /\ \A q \in Q : LeafSays(p, R, q)
     \/ \E s \in BestSplits(p, R, d, T) :
          LET L == Left(p, R, s[1], s[2])
              QL == {q \in Q : 2 * q.x[s[1]] <= s[2]}
          IN Grown(p, L, d + 1, QL) /\ Grown(p, R \ L, d + 1, Q \ QL)
==============================================================================
