--------------------------- MODULE DecompositionTrace ---------------------------
(* Trace validation of PCA and truncated SVD: the state is the last training   *)
(* set and the model reported for it.                                          *)
EXTENDS Decomposition, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p, X, m
vars == <<l, p, X, m>>
None == [none |-> TRUE]
Begin(e) == p' = None /\ X' = <<>> /\ m' = <<>>
Make(e) == p' = [kind |-> e.kind, k |-> e.k, c |-> e.c] /\ X' = <<>> /\ m' = <<>>
Fit(e) == /\ e.ok /\ e.same /\ UNCHANGED p
          /\ X' = e.X /\ m' = [V |-> e.V, s |-> e.s, var |-> e.var, ratio |-> e.ratio]
          /\ Holds(SameLen(m', p.k, Len(e.X[1])))
          /\ Holds(IF p.kind = "pca" THEN IsPCA(m', X', p.c) ELSE IsSVD(m', X', e.exact, p.c))
\* too many components for the sketch: the fit has to be refused, and no model is left
Refused(e) == ~e.ok /\ UNCHANGED p /\ X' = <<>> /\ m' = <<>>
\* any rows, at any time, are projected relative to the training mean
Transform(e) == /\ e.ok /\ e.same /\ UNCHANGED <<p, X, m>>
                /\ Len(e.a) = Len(e.Q)
                /\ LET tot == Totals(X) n == Len(X) IN
                   Holds(\A i \in 1..Len(e.Q) : /\ Len(e.a[i]) = p.k
                           /\ LET t == IF p.kind = "pca" THEN Project(m, Centred(e.Q[i], tot, n), 4 * n) ELSE Project(m, e.Q[i], 4)
                              IN \A j \in 1..p.k : Near(e.a[i][j], t[j], 100 * p.c))
Sound == 25000       \* variances the probabilistic model is checked for
Cov(e) == /\ e.ok /\ UNCHANGED <<p, X, m>>
          /\ LET d == Len(X[1]) C == CovOf(m, Noise(m, X), d) T == TotalOf(X, TRUE) IN
             Holds(Len(e.a) = d /\ \A a, b \in 1..d : Near(e.a[a][b], C[a][b], Slack(T, 10 * p.c)))
Prec(e) == /\ e.ok /\ UNCHANGED <<p, X, m>>
           /\ LET d == Len(X[1]) noise == Noise(m, X) C == CovOf(m, noise, d) IN
              Holds(Least(m, noise, d) >= Sound =>
                    Len(e.a) = d /\ \A a, b \in 1..d : Near(Dot(e.a[a], Col(C, b), DS), IF a = b THEN DS ELSE 0, 300 * p.c * d))
Score(e) == /\ e.ok /\ e.same /\ UNCHANGED <<p, X, m>>
            /\ LET d == Len(X[1]) noise == Noise(m, X) IN
               Holds(Least(m, noise, d) >= Sound =>
                     LET v == ScoreOf(m, noise, e.Q, Totals(X), Len(X), d) IN Near(e.a, v, 1000 * p.c + Abs(v) \div 1000))
Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Make" -> Make(e)
             [] e.e = "Fit" -> Fit(e)
             [] e.e = "Refused" -> Refused(e)
             [] e.e = "Transform" -> Transform(e)
             [] e.e = "Cov" -> Cov(e)
             [] e.e = "Prec" -> Prec(e)
             [] e.e = "Score" -> Score(e)
             [] OTHER -> FALSE
Init == l = 1 /\ p = None /\ X = <<>> /\ m = <<>>
Next == l <= Len(Log) /\ l' = l + 1 /\ Step(Log[l])
Spec == Init /\ [][Next]_vars
==============================================================================
