-------------------------------- MODULE GmmRun --------------------------------
(* EM on every small data set from every choice of initial responsibilities on *)
(* a coarse grid.                                                              *)
EXTENDS GaussianMixture
CONSTANTS Vals, Rows, Dim, Steps, Shares, Types
VARIABLES X, m, iter, type, last, phase, R
vars == <<X, m, iter, type, last, phase, R>>
Reg == 1000
Init == /\ X \in [1..Rows -> [1..Dim -> {v * GS : v \in Vals}]] /\ type \in Types
        /\ \A i \in 1..Rows - 1 : X[i][1] <= X[i + 1][1]
        /\ \A j \in 1..Dim : \E i, h \in 1..Rows : X[i][j] # X[h][j]
        /\ R \in [1..Rows -> {<<s, GS - s>> : s \in Shares}]
        /\ m = [none |-> TRUE] /\ iter = 0 /\ last = -BIG /\ phase = "M"
\* a component that collapses on a point, or a degenerate covariance, is outside the model
Regular(p) == /\ \A k \in 1..2 : p.w[k] > GS \div 20
              /\ \A k \in 1..Len(p.cov) : \A j \in 1..Dim : p.cov[k][j][j] > GS \div 20
              /\ Dim = 2 => \A k \in 1..Len(p.cov) : LET c == p.cov[k] IN Scalar(c[1][1], c[2][2]) - Scalar(c[1][2], c[2][1]) > Scalar(c[1][1], c[2][2]) \div 20
DoM == /\ phase = "M" /\ LET p == MStep(X, R, type, Reg) IN
            IF Regular(p) THEN m' = WithChol(p) /\ phase' = "E" ELSE m' = m /\ phase' = "degenerate"
       /\ UNCHANGED <<X, iter, type, last, R>>
DoE == /\ phase = "E" /\ R' = EStep(m, X) /\ last' = LogLik(m, X) /\ iter' = iter + 1
       /\ phase' = IF iter + 1 = Steps THEN "done" ELSE "M"
       /\ UNCHANGED <<X, m, type>>
Next == DoM \/ DoE
Spec == Init /\ [][Next]_vars
Fitted == phase \in {"E", "done"}
C23_Weights == Fitted => /\ \A k \in 1..2 : m.w[k] > 0
                         /\ Near(m.w[1] + m.w[2], GS, 5)
C23_Range == Fitted => \A k \in 1..2, j \in 1..Dim : \E i, h \in 1..Rows : X[i][j] - 5 <= m.mu[k][j] /\ m.mu[k][j] <= X[h][j] + 5
C23_Symmetric == Fitted => \A k \in 1..Len(m.cov) : \A a, b \in 1..Dim : Near(m.cov[k][a][b], m.cov[k][b][a], 3)
\* the posterior weights of a row sum to one
C23_Posterior == Fitted => \A i \in 1..Rows : LET q == Posterior(m, X[i]) IN Near(q[1] + q[2], GS, 3) /\ q[1] >= 0 /\ q[2] >= 0
\* EM never loses likelihood, but for the regularisation and the arithmetic
C23_Ascent == [][(iter > 0 /\ iter' > iter) => last' >= last - 2000]_vars
==============================================================================
