---------------------------- MODULE NeighborsTrace ---------------------------
(* Trace validation: KD-tree and k-NN classifier histories recorded from the   *)
(* implementation must be behaviours of this state machine.                    *)
EXTENDS Neighbors, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m       \* position in the trace; the model object the history is about
vars == <<l, m>>
None == [kind |-> "none"]

Begin(e) == m' = None
Build(e) == /\ e.ok
            /\ m' = [kind |-> "tree", metric |-> e.metric, data |-> e.data]
Knn(e) ==   /\ m.kind = "tree" /\ e.ok
            /\ Holds(KnnOk(m.metric, m.data, e.q, e.k, e.ix, e.ds))
            /\ UNCHANGED m
Radius(e) == /\ m.kind = "tree" /\ e.ok
             /\ Holds(RadiusOk(m.metric, m.data, e.q, e.rn, e.rd, e.ix, e.ds))
             /\ UNCHANGED m
\* the copy or the original, whichever outlives the other, is the tree that was built
Copy(e) == /\ m.kind = "tree" /\ e.ok
           /\ UNCHANGED m
Fit(e) ==   /\ e.ok
            /\ m' = [kind |-> "knn", metric |-> e.metric, data |-> e.data, labels |-> e.labels, k |-> e.k]
Predict(e) == /\ m.kind = "knn" /\ e.ok
              /\ Len(e.lab) = Len(e.q)
              /\ Holds(\A r \in 1..Len(e.q) : VoteOk(m.metric, m.data, m.labels, e.q[r], m.k, e.lab[r]))
              /\ UNCHANGED m
\* more neighbours than there are points cannot be answered
TooMany(e) == /\ m.kind \in {"tree", "knn"} /\ e.k > Len(m.data) /\ (m.kind = "knn" => m.k = e.k)
              /\ e.refused
              /\ UNCHANGED m

Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Build" -> Build(e)
             [] e.e = "Knn" -> Knn(e)
             [] e.e = "Radius" -> Radius(e)
             [] e.e = "Copy" -> Copy(e)
             [] e.e = "TooMany" -> TooMany(e)
             [] e.e = "Fit" -> Fit(e)
             [] e.e = "Predict" -> Predict(e)
             [] OTHER -> FALSE

Init == l = 1 /\ m = None
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
==============================================================================
