------------------------------- MODULE ArraysTrace -------------------------------
(* Trace validation of the array utilities: one call per event.                *)
EXTENDS Arrays, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* every line of R stands in relation F to the same line of X
PerLine(e, F(_, _)) == SameShape(e.R, e.X) /\ LET U == LinesOf(e.X, e.axis) V == LinesOf(e.R, e.axis) IN \A i \in 1..Len(U) : F(V[i], U[i])
PerEntry(e, F(_)) == SameShape(e.R, e.X) /\ \A i \in 1..Len(e.X) : \A j \in 1..Len(e.X[i]) : e.R[i][j] = F(e.X[i][j])
PerIndex(e, F(_, _)) == LET U == LinesOf(e.X, e.axis) IN Len(e.v) = Len(U) /\ \A i \in 1..Len(U) : F(e.v[i], U[i])
Result(e) ==
  CASE e.f = "sort" -> LET F(r, u) == IsSorted(r, u, e.rev) IN PerLine(e, F)
    [] e.f = "argsort" -> LET F(r, u) == IsArgsort(r, u, e.rev) IN PerLine(e, F)
    [] e.f = "argmax" -> PerIndex(e, IsArgmax)
    [] e.f = "argmin" -> PerIndex(e, IsArgmin)
    [] e.f = "vargsort" -> IsArgsort(e.v, e.u, e.rev)
    [] e.f = "unique" -> IsUnique(e.v, e.p, e.u)
    [] e.f = "where" -> e.v = Positions(e.u)
    [] e.f = "clip" -> LET F(x) == Clip(x, e.hi, e.lo) IN PerEntry(e, F)
    [] e.f = "fmin" -> LET F(x) == IF x < e.hi THEN x ELSE e.hi IN PerEntry(e, F)
    [] e.f = "hstack" -> Len(e.R) = Len(e.X) /\ \A i \in 1..Len(e.R) : e.R[i] = e.X[i] \o e.Y[i]
    [] e.f = "vstack" -> e.R = e.X \o e.Y
    [] e.f = "flatten" -> e.v = Flatten(e.X, 1)
    [] e.f = "repeat" -> IsRepeat(e.R, e.X, e.k, e.axis)
    [] e.f = "vec2mat" -> e.R = e.X
    [] e.f = "vec2vec" -> e.v = e.u
    [] e.f = "number" -> e.v = e.u
    [] e.f = "maxelement" -> \E i \in 1..Len(e.u) : e.u[i] = e.key /\ e.v[i] = e.val /\ \A j \in 1..Len(e.v) : e.v[j] <= e.val
    [] e.f = "combinations" -> IsCombinations(e.R, e.u, e.k)
    [] e.f = "contains" -> e.a = (Range(e.u) \subseteq Range(e.v))
    [] e.f = "equal" -> e.a = (e.u = e.v)
    [] e.f = "merge" -> e.r = Interleave(e.u, e.v)
    [] e.f = "difference" -> IsDifference(e.r, e.u, e.v)
    [] e.f = "dedup" -> e.R = Dedup(e.X, 1)
    [] e.f = "sortrows" -> IsRowSorted(e.R, e.X, e.rev)
    [] e.f = "slice" -> e.r = Slice(e.u, e.from, e.to)
    [] e.f = "slice2" -> e.R = Slice2(e.X, e.from, e.to, e.cfrom, e.cto)
\* calls that have to be refused: unknown axes, empty tables, ragged tables, shapes that do not fit, ranges outside the vector
Step(e) == CASE e.e = "Begin" -> TRUE
             [] e.e = "Call" -> e.ok /\ e.same /\ Holds(Result(e))
             [] e.e = "Refuse" -> ~e.ok
             [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Log) /\ l' = l + 1 /\ Step(Log[l])
Spec == Init /\ [][Next]_l
==============================================================================
