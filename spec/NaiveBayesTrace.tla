---------------------------- MODULE NaiveBayesTrace --------------------------
(* Trace validation of naive Bayes: the state is the configuration and the     *)
(* statistics of the last training set.  Labels are logged doubled.            *)
EXTENDS NaiveBayes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg, m
vars == <<l, cfg, m>>
None == [none |-> TRUE]
Begin(e) == cfg' = None /\ m' = None
Make(e) == cfg' = [gauss |-> e.gauss, par |-> e.par, flt |-> e.flt] /\ m' = None
Ready == m # None
\* the model is a function of the last training set alone
Fit(e) == e.ok /\ e.same /\ m' = Fitted(cfg.gauss, cfg.par, e.X, e.y) /\ UNCHANGED cfg
Same == UNCHANGED <<cfg, m>>
Classes(e) == Ready /\ e.ok /\ e.v = m.labels /\ Same
Rel(v) == 3 + IF cfg.flt THEN Abs(v) \div 20000 ELSE 0
Prior_(e) == Ready /\ e.ok /\ Len(e.v) = K(m) /\ (\A c \in 1..K(m) : Holds(Near(e.v[c], Prior(m, c), 3))) /\ Same
Count_(e) == Ready /\ e.ok /\ e.v = m.s1 /\ Same
Mean_(e) == /\ Ready /\ e.ok /\ Len(e.v) = K(m)
            /\ \A c \in 1..K(m) : Len(e.v[c]) = m.d /\ \A j \in 1..m.d : Holds(Near(e.v[c][j], Mean(m, c, j), Rel(Mean(m, c, j))))
            /\ Same
\* a float variance is the small difference of two means of squares
VarTol(c, j) == 3 + IF cfg.flt THEN (Var(m, c, j) \div 10 + MulDiv(LU, m.s2[c][j], 16 * m.n[c])) \div 50000 ELSE 0
Var_(e) == /\ Ready /\ e.ok /\ Len(e.v) = K(m)
           /\ \A c \in 1..K(m) : Len(e.v[c]) = m.d /\ \A j \in 1..m.d : Holds(Near(e.v[c][j], Var(m, c, j) \div 10, VarTol(c, j)))
           /\ Same
\* where the likelihoods can be computed here to useful precision
Exact(x) == /\ m.gauss => \A c \in 1..K(m), j \in 1..m.d : Var(m, c, j) >= 2000 /\ Dist2(m, c, j, x[j]) < BIG \div 4
            /\ \A c \in 1..K(m) : Joint(m, x)[c] > -(BIG \div 2)
\* uncertainty of a joint log likelihood: of the variance in the squared distance, of the logarithms, and of the code's own rounding
FltRel(c, j) == IF cfg.flt THEN MulDiv(VarTol(c, j) * 10, LU, Var(m, c, j)) ELSE 0      \* relative error of the variance, in millionths
JTol(x) == 20 + SeqMax([c \in 1..K(m) |->
    IF m.gauss THEN Sum([j \in 1..m.d |-> MulDiv(Dist2(m, c, j, x[j]) + LU, 3, Var(m, c, j)) + MulDiv(Dist2(m, c, j, x[j]) + LU, FltRel(c, j), LU) + 2])
               ELSE 3 * SumTo(x, Len(x))]) + (IF cfg.flt THEN SeqMax([c \in 1..K(m) |-> Abs(Joint(m, x)[c])]) \div 50000 + 20 ELSE 0)
\* log likelihoods may be huge (tiny variances), and the normalisation subtracts them in working precision
Slack == IF cfg.flt THEN LU \div 10 ELSE LU \div 1000
Labels(e) == /\ Ready /\ e.ok /\ e.same /\ Len(e.p) = Len(e.X) /\ Len(e.P) = Len(e.X)
             /\ \A i \in 1..Len(e.X) :
                  /\ \E c \in 1..K(m) : m.labels[c] = e.p[i] /\ e.P[i][c] >= SeqMax(e.P[i])       \* the label of a largest posterior
                  /\ Holds(Exact(e.X[i]) => \E c \in Best(Joint(m, e.X[i]), 2 * JTol(e.X[i])) : m.labels[c] = e.p[i])
             /\ Same
Proba(e) == /\ Ready /\ e.ok /\ e.same /\ Len(e.P) = Len(e.X)
            /\ \A i \in 1..Len(e.X) :
                 /\ Len(e.P[i]) = K(m) /\ \A c \in 1..K(m) : e.P[i][c] >= 0 /\ e.P[i][c] <= LU + Slack
                 /\ Holds(Near(SumTo(e.P[i], K(m)), LU, K(m) + Slack))
                 /\ Holds(Exact(e.X[i]) => LET q == Posterior(Joint(m, e.X[i])) IN \A c \in 1..K(m) : Near(e.P[i][c], q[c], 5 + JTol(e.X[i])) /\ Near(SumTo(e.P[i], K(m)), LU, K(m) + 5 + IF cfg.flt THEN JTol(e.X[i]) ELSE 0))
            /\ Same
LogProba(e) == /\ Ready /\ e.ok /\ e.same /\ Len(e.P) = Len(e.X)
               /\ \A i \in 1..Len(e.X) :
                    /\ Len(e.P[i]) = K(m) /\ \A c \in 1..K(m) : e.P[i][c] <= 20
                    /\ Holds(Exact(e.X[i]) => LET q == LogPosterior(Joint(m, e.X[i])) IN \A c \in 1..K(m) : Near(e.P[i][c], q[c], 5 + 2 * JTol(e.X[i])))
               /\ Same
Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Make" -> Make(e)
             [] e.e = "Fit" -> Fit(e)
             [] e.e = "Classes" -> Classes(e)
             [] e.e = "Prior" -> Prior_(e)
             [] e.e = "Count" -> Count_(e)
             [] e.e = "Mean" -> Mean_(e)
             [] e.e = "Var" -> Var_(e)
             [] e.e = "Labels" -> Labels(e)
             [] e.e = "Proba" -> Proba(e)
             [] e.e = "LogProba" -> LogProba(e)
             [] OTHER -> FALSE
Init == l = 1 /\ cfg = None /\ m = None
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
==============================================================================
