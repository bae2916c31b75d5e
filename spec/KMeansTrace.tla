------------------------------ MODULE KMeansTrace ------------------------------
(* Trace validation of k-means: the state is the set of fitted clusterings     *)
(* that explain every label predicted so far.  The starting rows are not       *)
(* observable; the predictions have to fit some run from some of them.         *)
EXTENDS KMeans, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p, cands
vars == <<l, p, cands>>
None == [none |-> TRUE]
Begin(e) == p' = None /\ cands' = {}
Make(e) == p' = [init |-> e.init, k |-> e.k, maxIter |-> e.maxIter, stop |-> e.stop, mtol |-> e.mtol, tol |-> e.tol] /\ cands' = {}
Ascending(s) == \A i \in 1..Len(s) - 1 : s[i] <= s[i + 1]
\* the starting rows: "random" takes different rows; "kmeans++" takes a row away from the ones it has as long as there is one
Distinct(S) == Cardinality({S[i] : i \in 1..Len(S)})
AtMost(a, b) == IF a < b THEN a ELSE b
Starts(X) == LET n == Len(X)
                 T == {s \in [1..p.k -> 1..n] : Ascending(s)}
             IN IF p.init = "random" THEN {s \in T : Cardinality({s[i] : i \in 1..p.k}) = p.k}
                ELSE {s \in T : Distinct([i \in 1..p.k |-> X[s[i]]]) = AtMost(p.k, Distinct(X))}
Perms == {f \in [1..p.k -> 1..p.k] : Cardinality({f[i] : i \in 1..p.k}) = p.k}
Reached(X) == FinalsFrom(X, TLCEval({[i \in 1..p.k |-> AsCentroid(X[s[i]])] : s \in Starts(X)}), {}, p.maxIter, p.stop, p.mtol, p.tol)
Fit(e) == /\ e.ok /\ e.same /\ UNCHANGED p
          /\ cands' = {[i \in 1..p.k |-> c[f[i]]] : c \in Reached(e.X), f \in Perms}
Ask(e) == /\ e.ok /\ e.same /\ Len(e.a) = Len(e.X) /\ UNCHANGED p
          /\ cands' = {c \in cands : \A i \in 1..Len(e.X) : e.a[i] + 1 \in Nearest(e.X[i], c, p.tol)}
          /\ Holds(cands' # {})
\* a fit that was allowed to run until nothing moves: every row is with the nearest mean, and new rows go to the nearest mean
\* unless a label without rows takes them
Settle(e) == /\ e.ok /\ e.same /\ Len(e.a) = Len(e.X) /\ Len(e.b) = Len(e.Q) /\ UNCHANGED <<p, cands>>
             /\ Holds(\A i \in 1..Len(e.a) : e.a[i] \in 0..e.k - 1)
             /\ Holds(Settled(e.X, e.a, e.tol))
             /\ LET C == TLCEval(Means(e.X, e.a)) IN Holds(\A i \in 1..Len(e.b) : e.b[i] \in DOMAIN C => NoneNearer(e.Q[i], e.b[i], C, e.tol))
             /\ Holds(\A i \in 1..Len(e.b) : e.b[i] \in 0..e.k - 1)
Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Make" -> Make(e)
             [] e.e = "Fit" -> Fit(e)
             [] e.e = "Ask" -> Ask(e)
             [] e.e = "Settle" -> Settle(e)
             [] OTHER -> FALSE
Init == l = 1 /\ p = None /\ cands = {}
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
==============================================================================
