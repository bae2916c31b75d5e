----------------------------- MODULE LinearTrace -----------------------------
(* Trace validation of the linear models: the state is the fitted model, the   *)
(* weights it last reported and, for the ridge path, the fit before it.        *)
EXTENDS LinearModels, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, prev
vars == <<l, m, prev>>
None == [kind |-> "none", W |-> <<>>]
Begin(e) == m' = None /\ prev' = None
Make(e) == /\ m' = [kind |-> e.kind, s |-> e.s, lam |-> e.lam, ic |-> e.ic, flt |-> e.flt, W |-> <<>>, X |-> <<>>, y |-> <<>>, labels |-> <<>>, sep |-> FALSE]
           /\ prev' = IF m.W # <<>> THEN m ELSE None
\* largest entry of the weights in counts, for rounding
WMax(W) == SeqMax([k \in 1..Len(W) |-> SumAbs(W[k])])
XMax(X) == SeqMax([i \in 1..Len(X) |-> SumAbs(X[i])])
\* a score is a dot product of entries rounded to half a count
STol(X, W) == 8 + (2 * XMax(X)) \div m.s + 2 * Len(W[1]) + (IF m.flt THEN MulDiv(XMax(X) + m.s, WMax(W), m.s) \div 100000 + 4 ELSE 0)
\* X'Xw - X'y: the same, summed over the rows
NTol(X, y, w) == LET big == MulDiv(XMax(X) + m.s, WMax(<<w>>), m.s) + SeqMax([i \in 1..Len(y) |-> Abs(y[i])])
                 IN MulDiv(Len(X) * (XMax(X) + m.s), STol(X, <<w>>) + 4, m.s) + 20
                    + MulDiv(Len(X) * (XMax(X) + m.s), big, m.s) \div (IF m.flt THEN 5000 ELSE 1000000)
Fit(e) == /\ m.kind \in {"linear", "ridge", "lasso"} /\ e.ok /\ e.same
          /\ Len(e.w) = 1 /\ Holds(Shaped(e.X, e.w, m.ic))
          /\ \A j \in 1..Len(e.w[1]) : Holds(IsNum(e.w[1][j]))
          /\ Holds(IF m.kind = "lasso" THEN LassoOpt(e.X, e.y, e.w[1], m.lam, m.ic, m.s, NTol(e.X, e.y, e.w[1]))
                                       ELSE NormalEq(e.X, e.y, e.w[1], m.lam, m.ic, m.s, NTol(e.X, e.y, e.w[1])))
          \* a larger penalty on the same data never lengthens the coefficients
          /\ Holds((prev.kind # "none" /\ prev.X = e.X /\ prev.y = e.y /\ prev.ic = m.ic /\ prev.lam <= m.lam /\ m.kind # "lasso")
                      => Norm2(e.w[1]) <= Norm2(prev.W[1]) + 4 + (IF m.flt THEN Norm2(prev.W[1]) \div 5000 ELSE 0))
          /\ m' = [m EXCEPT !.W = e.w, !.X = e.X, !.y = e.y]
          /\ UNCHANGED prev
Predict(e) == /\ m.W # <<>> /\ e.ok /\ e.same /\ Len(e.p) = Len(e.X)
              /\ \A i \in 1..Len(e.X) : Holds(Near(e.p[i], Affine(e.X[i], m.W[1], m.ic, m.s), STol(e.X, m.W)))
              /\ UNCHANGED <<m, prev>>
Coef(e) == m.W # <<>> /\ e.ok /\ e.w = m.W /\ UNCHANGED <<m, prev>>

\* the training rows lie within one unit of their class's centre, and centres are at least 8 units apart along an axis
Separated(e) == e.sep /\ \A i \in 1..Len(e.X) : LET k == CHOOSE k \in 1..Len(e.labels) : e.labels[k] = e.y[i]
                                               IN \A j \in 1..Len(e.X[i]) : Abs(e.X[i][j] - e.C[k][j]) <= m.s
Train(e) == /\ m.kind \in {"perceptron", "logistic", "softmax"} /\ e.ok /\ e.same
            /\ Len(e.w) = (IF m.kind = "softmax" THEN Len(e.labels) ELSE 1) /\ Holds(Shaped(e.X, e.w, m.ic))
            /\ \A k \in 1..Len(e.w) : \A j \in 1..Len(e.w[k]) : Holds(IsNum(e.w[k][j]))
            /\ m' = [m EXCEPT !.W = e.w, !.X = e.X, !.y = e.y, !.labels = e.labels, !.sep = Holds(Separated(e))]
            /\ UNCHANGED prev
\* scores of all classes for each row; ties within the rounding may be broken either way
Labels(e) == /\ m.W # <<>> /\ e.ok /\ e.same /\ Len(e.p) = Len(e.X)
             /\ \A i \in 1..Len(e.X) : Holds(\E k \in Best(ClassScores(e.X[i], m.W, m.ic, m.s), STol(e.X, m.W)) : e.p[i] = m.labels[k])
             /\ Holds((m.sep /\ e.X = m.X) => e.p = m.y)
             /\ UNCHANGED <<m, prev>>
Proba(e) == /\ m.W # <<>> /\ e.ok /\ e.same /\ Len(e.P) = Len(e.X)
            /\ \A i \in 1..Len(e.X) :
                 LET q == Softmax(ClassScores(e.X[i], m.W, m.ic, m.s), m.s)
                 IN /\ Len(e.P[i]) = Len(q)
                    /\ \A k \in 1..Len(q) : Holds(Near(e.P[i][k], q[k], 4 + STol(e.X, m.W)) /\ e.P[i][k] >= 0 /\ e.P[i][k] <= m.s)
                    /\ Holds(Near(Sum(e.P[i]), m.s, Len(q) + 2))
            /\ UNCHANGED <<m, prev>>
\* training may give up without a model, but not on well separated data
Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Make" -> Make(e)
             [] e.e = "Fit" -> Fit(e)
             [] e.e = "Train" -> Train(e)
             [] e.e = "Predict" -> Predict(e)
             [] e.e = "Coef" -> Coef(e)
             [] e.e = "Labels" -> Labels(e)
             [] e.e = "Proba" -> Proba(e)
             [] OTHER -> FALSE
Init == l = 1 /\ m = None /\ prev = None
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
==============================================================================
