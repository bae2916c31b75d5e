------------------------------ MODULE SplitsTrace ------------------------------
(* Trace validation of shuffles, splits, divisions and random draws: the state *)
(* is the data set at hand, which shuffles reorder and splits cut.             *)
EXTENDS Splits, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, D
vars == <<l, D>>
Begin(e) == D' = <<>>
Load(e) == D' = Pairs(e.X, e.y)
\* rows of D, without their labels
Rows(s) == Strict([i \in 1..Len(s) |-> s[i][1]])
Shuffle(e) == /\ e.ok /\ e.same /\ Len(e.X) = Len(e.y) /\ D' = Pairs(e.X, e.y)
              /\ Holds(SameBag(D, D'))
\* a matrix alone is shuffled along an axis; the data set stays as it is
ShuffleMatrix(e) == /\ e.ok /\ e.same /\ UNCHANGED D
                    /\ Holds(IF e.axis = 1 THEN SameBag(Rows(D), e.X) ELSE Len(e.X) = Len(D) /\ SameBag(Columns(Rows(D)), Columns(e.X)))
\* ratios are num/den; one of the parts replaces the data set
Split(e) == /\ e.ok /\ e.same /\ Len(e.Xa) = Len(e.ya) /\ Len(e.Xb) = Len(e.yb)
            /\ Holds(IsSplit(D, Pairs(e.Xa, e.ya), Pairs(e.Xb, e.yb), e.num, e.den, e.shuffled))
            /\ D' = IF e.keep THEN Pairs(e.Xa, e.ya) ELSE D
Divide(e) == /\ e.ok /\ e.same /\ UNCHANGED D
             /\ Holds(IsDivision(Rows(D), e.f + 1, e.t, e.keep, e.drop))
Permutation(e) == e.ok /\ UNCHANGED D /\ Holds(IsPermutation(e.idx, e.n))
\* every order of a few rows is among many results
AllOrders(e) == e.ok /\ UNCHANGED D /\ Holds({e.orders[i] : i \in 1..Len(e.orders)} = Orders(e.n))
\* draws have the shape and the range asked for, and reach both ends of it
Shape(e) == Len(e.X) = e.rows /\ \A i \in 1..e.rows : Len(e.X[i]) = e.cols
Draws(e) == /\ e.ok /\ UNCHANGED D
            /\ Holds(Shape(e) /\ \A i \in 1..e.rows, j \in 1..e.cols : e.low <= e.X[i][j] /\ e.X[i][j] <= e.high)
\* a thousand normal draws: their mean and deviation are within eight standard errors of what was asked for
Normal(e) == e.ok /\ UNCHANGED D /\ Holds(Abs(e.mean - e.mu) <= e.sd \div 4 + 1 /\ Abs(e.dev - e.sd) <= e.sd \div 5 + 1)
AllDraws(e) == e.ok /\ UNCHANGED D /\ Holds({e.seen[i] : i \in 1..Len(e.seen)} = e.low..e.high)
Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Load" -> Load(e)
             [] e.e = "Shuffle" -> Shuffle(e)
             [] e.e = "ShuffleMatrix" -> ShuffleMatrix(e)
             [] e.e = "Split" -> Split(e)
             [] e.e = "Divide" -> Divide(e)
             [] e.e = "Permutation" -> Permutation(e)
             [] e.e = "AllOrders" -> AllOrders(e)
             [] e.e = "Draws" -> Draws(e)
             [] e.e = "AllDraws" -> AllDraws(e)
             [] e.e = "Normal" -> Normal(e)
             [] OTHER -> FALSE
Init == l = 1 /\ D = <<>>
Next == l <= Len(Log) /\ l' = l + 1 /\ Step(Log[l])
Spec == Init /\ [][Next]_vars
==============================================================================
