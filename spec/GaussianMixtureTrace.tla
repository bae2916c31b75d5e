-------------------------- MODULE GaussianMixtureTrace --------------------------
(* Trace validation of Gaussian mixtures: the state is the configuration and   *)
(* the model reported by the last fit.  A chain of fits repeats the same        *)
(* random initialisation with ever smaller tolerances, so each one continues    *)
(* the EM run of the one before.                                                *)
EXTENDS GaussianMixture, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p, m, dat, chain
vars == <<l, p, m, dat, chain>>
None == [none |-> TRUE]
Begin(e) == p' = None /\ m' = None /\ dat' = <<>> /\ chain' = FALSE
Make(e) == p' = [K |-> e.K, type |-> e.type, reg |-> e.reg, tol |-> e.tol, maxIter |-> e.maxIter, eps |-> e.eps, inits |-> e.inits] /\ chain' = e.chain
           /\ m' = (IF e.chain THEN m ELSE None) /\ dat' = (IF e.chain THEN dat ELSE <<>>)
Model(e) == [w |-> e.w, mu |-> e.mu, cov |-> e.cov, prec |-> e.prec, chol |-> e.chol, lb |-> e.lb]
Dims(q, n, d) == Len(q) = n /\ \A i \in 1..n : Len(q[i]) = d
\* conditioned well enough for six digits to say something
WellCond(q) == \A k \in 1..Len(q.chol) : \A a, b \in 1..Len(q.chol[k]) : Abs(q.chol[k][a][b]) <= 20 * GS
Column2(M, j) == [i \in 1..Len(M) |-> M[i][j]]
IsInverse(A, B, eps) == \A a, b \in 1..Len(A) : Near(Dot(A[a], Column2(B, b), GS), IF a = b THEN GS ELSE 0, eps)
Shape(q, d) == LET N == IF p.type = "tied" THEN 1 ELSE p.K IN
   /\ Len(q.w) = p.K /\ Dims(q.mu, p.K, d) /\ Len(q.cov) = N /\ Len(q.prec) = N /\ Len(q.chol) = N
   /\ \A k \in 1..N : Dims(q.cov[k], d, d) /\ Dims(q.prec[k], d, d) /\ Dims(q.chol[k], d, d)
Valid(q, X) == LET d == Len(X[1]) IN
   /\ \A k \in 1..p.K : q.w[k] >= 0 /\ IsNum(q.w[k])
   /\ Near(Sum(q.w), GS, 5 * p.K + p.eps)
   /\ \A k \in 1..p.K, j \in 1..d : q.w[k] > 100 => \E i, h \in 1..Len(X) : X[i][j] - p.eps - 5 <= q.mu[k][j] /\ q.mu[k][j] <= X[h][j] + p.eps + 5
   /\ \A k \in 1..Len(q.cov) : /\ \A a, b \in 1..d : Near(q.cov[k][a][b], q.cov[k][b][a], p.eps)
                               /\ \A a \in 1..d : q.cov[k][a][a] >= p.reg - p.eps /\ q.cov[k][a][a] > 0
Factors(q) == \A k \in 1..Len(q.cov) : LET P == q.chol[k] IN
   /\ \A a \in 1..Len(P) : P[a][a] > 0
   /\ \A a, b \in 1..Len(P) : Near(Dot(P[a], P[b], GS), q.prec[k][a][b], 40 + 10 * p.eps)
   /\ IsInverse(q.cov[k], q.prec[k], 500 + 20 * p.eps)
AllWithin(q, X) == \A i \in 1..Len(X) : Within(q, X[i])
Tiny == 10       \* regularisation that does not count
\* the lower bound is the likelihood one EM step earlier
Progress(q, X) == p.reg <= Tiny => LogLik(q, X) >= q.lb - 3000 - 10 * p.eps
\* q continues prev by exactly one EM step, as their likelihoods tell
OneStep(prev, ll, q) == Near(q.lb, ll, 60) /\ ll > prev.lb + 2000
\* the mean and the covariance of a component scale their errors by 1 / its number of rows
Close(prev, q, X) ==
  LET R == EStep(prev, X)
      s == MStep(X, R, p.type, p.reg)
      Heavy == {k \in 1..p.K : Share(R, k) > GS \div 2}
  IN /\ \A k \in 1..p.K : Near(q.w[k], s.w[k], 2000)
     /\ \A k \in Heavy : \A j \in 1..Len(X[1]) : Near(q.mu[k][j], s.mu[k][j], 10000)
     /\ \A k \in 1..Len(q.cov) : (p.type = "tied" \/ k \in Heavy) =>
          \A a, b \in 1..Len(X[1]) : Near(q.cov[k][a][b], s.cov[k][a][b], 40000)
Continues(prev, q, X) ==
  LET ll == LogLik(prev, X) IN
   /\ (p.inits = 1 /\ p.reg <= Tiny) => q.lb >= prev.lb - 3000 /\ LogLik(q, X) >= ll - 3000
   /\ p.inits > 1 => q.lb >= prev.lb - 60
   /\ (p.inits = 1 /\ OneStep(prev, ll, q)) => Close(prev, q, X) /\ (p.tol < BIG => q.lb - prev.lb < p.tol + 60)
Fit(e) == /\ e.same /\ UNCHANGED <<p, chain>>
          /\ IF e.ok
             THEN /\ Len(e.X) >= p.K /\ p.maxIter >= 2 /\ m' = Model(e) /\ dat' = e.X
                  /\ Holds(Shape(m', Len(e.X[1])) /\ Valid(m', e.X))
                  /\ Holds(WellCond(m') => Factors(m') /\ (AllWithin(m', e.X) => Progress(m', e.X)))
                  /\ Holds((chain /\ m # None /\ WellCond(m') /\ WellCond(m) /\ AllWithin(m, e.X) /\ AllWithin(m', e.X)) => Continues(m, m', e.X))
             ELSE \* too few rows; no convergence; a covariance that is not positive definite
                  /\ Holds(Len(e.X) < p.K \/ ~(p.tol = BIG /\ p.maxIter >= 2 /\ p.reg >= 10000))
                  /\ m' = None /\ dat' = <<>>
ProbOK(x, a) == /\ Len(a) = p.K /\ Near(Sum(a), GS, 10 + p.eps)
                /\ \A k \in 1..p.K : a[k] >= 0
                /\ (WellCond(m) /\ Within(m, x)) => LET q == Posterior(m, x) IN \A k \in 1..p.K : Near(a[k], q[k], 4000 + 10 * p.eps)
LabelOK(x, a) == /\ a \in 0..p.K - 1
                 /\ (WellCond(m) /\ Within(m, x)) => LET q == Joints(m, x) IN q[a + 1] >= Largest(q) - 6000 - 10 * p.eps
Ask(e) == /\ e.ok /\ e.same /\ Len(e.a) = Len(e.X) /\ UNCHANGED <<p, m, dat, chain>>
          /\ e.what = "prob" => Holds(\A i \in 1..Len(e.X) : ProbOK(e.X[i], e.a[i]))
          /\ e.what = "label" => Holds(\A i \in 1..Len(e.X) : LabelOK(e.X[i], e.a[i]))
Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Make" -> Make(e)
             [] e.e = "Fit" -> Fit(e)
             [] e.e = "Ask" -> Ask(e)
             [] OTHER -> FALSE
Init == l = 1 /\ p = None /\ m = None /\ dat = <<>> /\ chain = FALSE
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
==============================================================================
