---------------------------- MODULE DecisionTreeRun ----------------------------
(* Growth of a decision tree, one node at a time in any order, over every      *)
(* small training set.  A node carries its rows, its depth and the box of      *)
(* feature values that leads to it (bounds doubled, lower exclusive).          *)
EXTENDS DecisionTree
CONSTANTS Vals, Labs, MaxRows, Dim, Kinds, SplitSizes, LeafSizes, Depths, Decs
VARIABLES p, nodes
vars == <<p, nodes>>
LOW == -100
HIGH == 100
Rows == [1..Dim -> Vals]
Params == UNION {[1..k -> (Rows \X Labs)] : k \in 1..MaxRows}
Init == /\ \E D \in Params, k \in Kinds, ms \in SplitSizes, ml \in LeafSizes, md \in Depths, dec \in Decs :
              p = [kind |-> k, X |-> [i \in 1..Len(D) |-> D[i][1]], y |-> [i \in 1..Len(D) |-> D[i][2]],
                   minSplit |-> ms, minLeaf |-> ml, maxDepth |-> md, minDec |-> dec, minVar |-> -1, sc |-> 10000, tol |-> 2]
        /\ nodes = {[R |-> 1..Len(p.X), d |-> 0, box |-> [f \in 1..Dim |-> <<LOW, HIGH>>], done |-> FALSE]}
Leave(n) == ~n.done /\ Holds(MayLeaf(p, n.R, n.d, Table(p, n.R))) /\ nodes' = (nodes \ {n}) \cup {[n EXCEPT !.done = TRUE]} /\ UNCHANGED p
Split(n) == /\ ~n.done
            /\ \E s \in BestSplits(p, n.R, n.d, Table(p, n.R)) :
                 LET L == Left(p, n.R, s[1], s[2])
                 IN nodes' = (nodes \ {n}) \cup {[R |-> L, d |-> n.d + 1, box |-> [n.box EXCEPT ![s[1]][2] = s[2]], done |-> FALSE],
                                                 [R |-> n.R \ L, d |-> n.d + 1, box |-> [n.box EXCEPT ![s[1]][1] = s[2]], done |-> FALSE]}
            /\ UNCHANGED p
Next == \E n \in nodes : Leave(n) \/ Split(n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Inside(n, x) == \A f \in 1..Dim : n.box[f][1] < 2 * x[f] /\ 2 * x[f] <= n.box[f][2]
Done == \A n \in nodes : n.done
RECURSIVE MassSum(_)
MassSum(N) == IF N = {} THEN 0 ELSE LET n == CHOOSE n \in N : TRUE IN Mass(p, n.R) + MassSum(N \ {n})
C20_Partition == \A n \in nodes : n.R # {} /\ n.R = {i \in 1..Len(p.X) : Inside(n, p.X[i])}
C20_EveryQueryHasOneLeaf == \A x \in Rows : Cardinality({n \in nodes : Inside(n, x)}) = 1
C20_Limits == \A n \in nodes : n.d <= p.maxDepth + 1 /\ (n.d > 0 => Cardinality(n.R) >= MinSide(p))
\* a finished leaf that could still be split with profit is one a limit forbids to split
C20_Greedy == \A n \in nodes : n.done =>
   \/ Cardinality(n.R) < p.minSplit \/ n.d > p.maxDepth
   \/ \A s \in Splits(p, n.R) : Decrease(p, n.R, s[1], s[2]) <= Floor(p) + p.tol
\* on one feature every set of rows with distinct values can be told apart, so nothing but a limit leaves a mixed leaf
Free == p.minSplit <= 2 /\ p.minLeaf <= 1 /\ p.minDec = 0 /\ p.maxDepth >= MaxRows
Distinct == \A i, j \in 1..Len(p.X) : i # j => p.X[i] # p.X[j]
C21_OneFeatureExact == (Done /\ Free /\ Dim = 1 /\ Distinct /\ p.kind \in {"gini", "mse"}) => \A n \in nodes : Cardinality(Values(p, n.R)) = 1
C21_MeanWithinTargets == \A n \in nodes : \A v \in {Total(p, n.R)} :
   /\ \E i \in 1..Len(p.y) : p.y[i] * Cardinality(n.R) <= v
   /\ \E i \in 1..Len(p.y) : p.y[i] * Cardinality(n.R) >= v
\* the operator that judges recorded answers accepts what the grown tree answers
Answers == {[x |-> x, what |-> "mean", a |-> <<MulDiv(Total(p, n.R), p.sc, Cardinality(n.R))>>] : <<x, n>> \in {xn \in Rows \X nodes : Inside(xn[2], xn[1])}}
C20_JudgeAcceptsTheTree == Done => Grown(p, 1..Len(p.X), 0, Answers)
\* splitting never makes the leaves less pure
C20_Purer == [][MassSum(nodes') <= MassSum(nodes) + 8]_vars
C20_Terminates == <>Done
==============================================================================
