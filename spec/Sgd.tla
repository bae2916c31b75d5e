--------------------------------- MODULE Sgd ---------------------------------
(* The stochastic optimizers: what one epoch, one step and the stopping rule   *)
(* are.  Shared by the model-checked designs (SgdRun, SagRun, TgRun, ScdRun,   *)
(* PolicyRun) and by the trace specification SgdTrace.                         *)
EXTENDS FixMath, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Clamp(x, c) == IF x > c THEN c ELSE IF x < -c THEN -c ELSE x

\* ---------------------------------------------------------------- batches
NumBatches(n, b) == n \div b
\* a batch may be drawn: whole, distinct rows, none used before in this epoch;
\* rows are numbered 1..n; j is the 0-based position of the batch in the epoch
BatchOk(rows, n, b, j, used, shuffle) ==
  /\ Len(rows) = b
  /\ \A i \in 1..b : rows[i] \in 1..n /\ rows[i] \notin used
  /\ Cardinality({rows[i] : i \in 1..b}) = b
  /\ shuffle \/ \A i \in 1..b : rows[i] = j * b + i

\* ---------------------------------------------------------------- stopping
\* st = [cnt, has, best]: consecutive epochs without improvement, best sum so far
Stop0 == [cnt |-> 0, has |-> FALSE, best |-> 0]
NoImprovement(st, sum, tolb) == st.has /\ sum > st.best - tolb
StopStep(st, sum, tolb) ==
  [cnt |-> IF NoImprovement(st, sum, tolb) THEN st.cnt + 1 ELSE 0,
   has |-> TRUE,
   best |-> IF st.has THEN Min(st.best, sum) ELSE sum]
Converged(st, pat) == st.cnt >= pat

\* ---------------------------------------------------------------- averaging
\* mean over all slots of the most recent gradient of each slot, times the number of slots
SlotSum(hist, i) == Sum([k \in 1..Len(hist) |-> hist[k][i]])

\* ---------------------------------------------------------------- truncation
\* u: penalty accumulated so far; q: net penalty this weight has received so far
TgWeight(w, q, u) == IF w > 0 THEN Max(0, w - (u + q)) ELSE IF w < 0 THEN Min(0, w + (u - q)) ELSE w
TgNet(w, q, u) == q + (TgWeight(w, q, u) - w)

\* ---------------------------------------------------------------- coordinate descent
\* numbers in units of 1/S; curvature rho = rn/rd; ScaledEta is rn * eta, so that
\* no division is needed
ScaledEta(w, g, rn, rd, lam) ==
  LET z == rn * w - rd * g IN
  IF z > rd * lam THEN - rd * g - rd * lam
  ELSE IF z < - rd * lam THEN rd * lam - rd * g
  ELSE - rn * w
\* 2 * rn * rd * S^2 * (predicted descent), from E = rn * eta
Descent(w, g, rn, rd, lam) ==
  LET E == ScaledEta(w, g, rn, rd, lam) IN
  - 2 * rd * E * g - E * E - 2 * rd * lam * (Abs(rn * w + E) - Abs(rn * w))
ScdBest(w, g, rn, rd, lam) ==
  LET D == [j \in DOMAIN w |-> Descent(w[j], g[j], rn, rd, lam)]
  IN {j \in DOMAIN w : \A k \in DOMAIN w : D[j] >= D[k]}
\* w2 is w after one step
ScdStepOk(w, w2, g, rn, rd, lam) ==
  /\ Len(w2) = Len(w)
  /\ \E j \in ScdBest(w, g, rn, rd, lam) :
       /\ rn * w2[j] = rn * w[j] + ScaledEta(w[j], g[j], rn, rd, lam)
       /\ \A k \in DOMAIN w : k # j => w2[k] = w[k]
==============================================================================
