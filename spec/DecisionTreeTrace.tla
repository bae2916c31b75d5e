--------------------------- MODULE DecisionTreeTrace ---------------------------
(* Trace validation of the decision trees: the state is the configuration, the *)
(* last training set and every answer given since; some greedily grown tree    *)
(* has to explain all of them together.                                        *)
EXTENDS DecisionTree, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p, asked
vars == <<l, p, asked>>
None == [none |-> TRUE]
Begin(e) == p' = None /\ asked' = {}
Make(e) == p' = [kind |-> e.kind, minSplit |-> e.minSplit, minLeaf |-> e.minLeaf, maxDepth |-> e.maxDepth, minDec |-> e.minDec, minVar |-> e.minVar,
                 sc |-> e.sc, tol |-> e.tol, X |-> <<>>, y |-> <<>>, labels |-> <<>>] /\ asked' = {}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET v == CHOOSE v \in S : \A w \in S : v <= w IN <<v>> \o Ascending(S \ {v})
\* nothing of an earlier fit survives
Fit(e) == e.ok /\ e.same /\ p' = [p EXCEPT !.X = e.X, !.y = e.y, !.labels = Ascending({e.y[i] : i \in 1..Len(e.y)})] /\ asked' = {}
Item(e, i) == [x |-> e.X[i], what |-> e.what, a |-> e.a[i]]
Ask(e) == /\ e.ok /\ e.same /\ Len(e.a) = Len(e.X)
          /\ LET new == asked \cup {Item(e, i) : i \in 1..Len(e.X)} IN Holds(Grown(p, 1..Len(p.y), 0, new)) /\ asked' = new
          /\ UNCHANGED p
Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Make" -> Make(e)
             [] e.e = "Fit" -> Fit(e)
             [] e.e = "Ask" -> Ask(e)
             [] OTHER -> FALSE
Init == l = 1 /\ p = None /\ asked = {}
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
==============================================================================
