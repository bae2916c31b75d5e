------------------------------- MODULE SgdTrace ------------------------------
(* Trace validation of the stochastic optimizers, the coordinate descent and   *)
(* the decay and update policies.  Every run names the property it is recorded *)
(* for (judge); the guards of the other properties do not apply to it.         *)
EXTENDS Sgd, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m
vars == <<l, m>>
None == [kind |-> "none"]

SameMat(a, b, tol) == /\ Len(a) = Len(b)
                      /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A k \in 1..Len(a[i]) : a[i][k] - b[i][k] \in (-tol)..tol
SameVec(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
Col1(X) == [i \in 1..Len(X) |-> X[i][1]]
Zeros(W) == [i \in 1..Len(W) |-> 0]

Begin(e) == m' = None
Start(e) == m' = [kind |-> "opt", c |-> e, judge |-> e.judge,
                  w |-> IF e.cont THEN m.w ELSE e.x0, free |-> e.cont /\ m.failed,
                  nb |-> NumBatches(e.n, e.b),
                  ep |-> 0, j |-> 0, used |-> {}, batch |-> <<>>, by |-> <<>>, g |-> <<>>, lr |-> 0, phase |-> "lr", failed |-> FALSE,
                  st |-> Stop0, sum |-> 0, open |-> FALSE,
                  hist |-> [k \in 1..NumBatches(e.n, e.b) |-> Zeros(e.x0)],
                  u |-> 0, q |-> Zeros(e.x0), out |-> <<>>]

\* ---------------------------------------------------------------- C09: batches and updates
B_Lr(e) == /\ m.phase = "lr" \/ (m.phase = "grad" /\ m.j = m.nb)
           /\ e.epoch = m.ep /\ m.ep < m.c.maxit
           /\ m' = [m EXCEPT !.ep = @ + 1, !.j = 0, !.used = {}, !.lr = e.lr, !.phase = "grad"]
B_Grad(e) == LET rows == Col1(e.rows) IN
             /\ m.phase = "grad" /\ m.j < m.nb
             /\ BatchOk(rows, m.c.n, m.c.b, m.j, m.used, m.c.shuffle)
             /\ e.y = [i \in 1..m.c.b |-> m.c.y[rows[i]]]
             /\ m.free \/ SameMat(e.w, m.w, 1)
             /\ m' = [m EXCEPT !.phase = "upd", !.batch = rows, !.by = e.y, !.used = @ \cup {rows[i] : i \in 1..m.c.b}, !.g = e.g, !.w = e.w, !.free = FALSE]
B_Upd(e) == /\ m.phase = "upd"
            /\ SameMat(e.w, m.w, 1) /\ e.lr = m.lr
            /\ m.c.kind # "sag" => SameMat(e.g, [i \in 1..Len(m.g) |-> [k \in 1..Len(m.g[i]) |-> Clamp(m.g[i][k], m.c.clip)]], 1)
            /\ m' = [m EXCEPT !.phase = "eval", !.w = e.out]
B_Eval(e) == /\ m.phase = "eval"
             /\ Col1(e.rows) = m.batch /\ e.y = m.by
             /\ m.c.kind # "tg" => SameMat(e.w, m.w, 1)
             /\ m' = [m EXCEPT !.phase = "grad", !.w = e.w, !.j = @ + 1]
B_Done(e) == /\ m.j = m.nb \/ m.ep = 0
             /\ e.ok => SameMat(e.coef, m.w, 1)
             /\ m' = [m EXCEPT !.failed = ~e.ok]

\* ---------------------------------------------------------------- C10: stopping
\* an epoch is what lies between two calls of the decay policy
Closed == IF m.open THEN StopStep(m.st, m.sum, m.c.tolb) ELSE m.st
S_Lr(e) == /\ m.ep < m.c.maxit
           /\ m.open => ~Converged(Closed, m.c.pat)          \* must have stopped already
           /\ m' = [m EXCEPT !.ep = @ + 1, !.st = Closed, !.sum = 0, !.open = TRUE]
S_Eval(e) == /\ m.open
             /\ m' = [m EXCEPT !.sum = @ + e.loss, !.w = e.w, !.free = FALSE]
S_Done(e) == /\ e.ok <=> (m.open /\ Converged(Closed, m.c.pat))
             /\ ~e.ok => m.ep = m.c.maxit                    \* gives up at the limit, not before
             /\ e.ok => m.free \/ SameMat(e.coef, m.w, 0)
             /\ m' = [m EXCEPT !.failed = ~e.ok]

\* ---------------------------------------------------------------- C11: stochastic average gradient
A_Lr(e) == m' = [m EXCEPT !.j = 0, !.lr = e.lr]
A_Grad(e) == /\ m.j < m.nb
             /\ m' = [m EXCEPT !.j = @ + 1, !.w = e.w, !.hist = [@ EXCEPT ![m.j + 1] = Col1(e.g)]]
A_Upd(e) == /\ \A i \in 1..Len(e.g) : Near(e.g[i][1], SlotSum(m.hist, i) \div m.nb, 4)
            /\ e.lr = m.lr /\ SameMat(e.w, m.w, 1)
            /\ m' = [m EXCEPT !.out = e.out]
A_Eval(e) == SameMat(e.w, m.out, 1) /\ UNCHANGED m

\* ---------------------------------------------------------------- C12: truncated gradient
T_Lr(e) == m' = [m EXCEPT !.lr = e.lr]
T_Upd(e) == m' = [m EXCEPT !.out = Col1(e.out), !.u = @ + MulDiv(m.c.pen, m.lr, 1048576)]
T_Eval(e) == LET w2 == Col1(e.w) IN
             /\ Len(w2) = Len(m.out)
             /\ \A i \in 1..Len(w2) : Near(w2[i], TgWeight(m.out[i], m.q[i], m.u), 2)
             /\ m' = [m EXCEPT !.q = [i \in 1..Len(w2) |-> TgNet(m.out[i], m.q[i], m.u)]]

\* ---------------------------------------------------------------- C13: coordinate descent
SStart(e) == m' = [kind |-> "scd", c |-> e, w |-> IF e.cont THEN m.w ELSE e.x0, g |-> <<>>, it |-> 0]
Moved(w2) == IF m.it = 0 THEN w2 = m.w
             ELSE ScdStepOk(m.w, w2, m.g, m.c.rn, m.c.rd, m.c.lam)
SGrad(e) == LET rows == Col1(e.rows) IN
            /\ m.kind = "scd" /\ m.it < m.c.maxit
            /\ Len(rows) = m.c.n /\ {rows[i] : i \in 1..m.c.n} = 1..m.c.n
            /\ \A i \in 1..m.c.n : e.y[i] = 999 + rows[i]
            /\ Holds(Moved(e.w))
            /\ m' = [m EXCEPT !.w = e.w, !.g = e.g, !.it = @ + 1]
SDone(e) == /\ m.kind = "scd" /\ e.ok /\ m.it = m.c.maxit
            /\ Holds(Moved(e.coef))
            /\ m' = [m EXCEPT !.w = e.coef, !.it = 0]

\* ---------------------------------------------------------------- C14: policies
PStart(e) == m' = [kind |-> e.kind, mu |-> e.mu, v |-> <<>>, dk |-> "none", k |-> 0, again |-> FALSE]
\* a policy and a decay inside a run of an optimizer; a further run of the same optimizer may go on with the
\* velocity of the one before it or start from rest
RStart(e) == m' = [kind |-> e.kind, mu |-> e.mu, v |-> IF e.again THEN m.v ELSE <<>>, dk |-> e.dk,
                   k |-> IF e.again THEN m.k ELSE 0, again |-> e.again, base |-> e.base, gn |-> e.gn, step |-> e.step]
P == 65536
NewV(v, e) == [i \in 1..Len(e.w) |-> [k \in 1..Len(e.w[i]) |-> (IF v = <<>> THEN 0 ELSE MulDiv(m.mu, v[i][k], P)) + MulDiv(e.lr, e.g[i][k], P)]]
PMove(v, v2, i, k) == CASE m.kind = "nesterov" -> v2[i][k] + MulDiv(m.mu, v2[i][k] - (IF v = <<>> THEN 0 ELSE v[i][k]), P)
                        [] OTHER -> v2[i][k]
Follows(v, e) == LET v2 == NewV(v, e) IN
  SameMat(e.out, [i \in 1..Len(e.w) |-> [k \in 1..Len(e.w[i]) |-> e.w[i][k] - PMove(v, v2, i, k)]], 16 + 8 * m.k)
PUpd(e) == /\ m.kind \in {"vanilla", "momentum", "nesterov"} /\ e.ok
           /\ \E v \in {m.v} \cup (IF m.again THEN {<<>>} ELSE {}) :
              /\ Holds(Follows(v, e))
              /\ m' = [m EXCEPT !.v = IF m.kind = "vanilla" THEN @ ELSE NewV(v, e), !.again = FALSE,
                                !.k = IF m.dk = "none" THEN 0 ELSE @ + 1]
DStart(e) == m' = [kind |-> "rate", dk |-> e.kind, base |-> e.base, gn |-> e.gn, step |-> e.step]
RECURSIVE Decayed(_, _, _)
Decayed(x, gn, k) == IF k = 0 \/ x = 0 THEN x ELSE Decayed(MulDiv(x, gn, 64), gn, k - 1)
\* base * gamma^((1 + epoch) div step), one count lost per multiplication
StepRate(ep) == Decayed(m.base, m.gn, (1 + ep) \div m.step)
ExpRate(ep) == MulDiv(m.base, ExpFix(- MulDiv(m.gn * ep, 1000000, 64), 1000000), 1000000)
Rate(e) == /\ m.dk \in {"step", "exp"} /\ e.ok
           /\ e.lr >= 0 /\ e.lr <= m.base
           /\ IF m.dk = "step" THEN Near(e.lr, StepRate(e.epoch), 2 + (1 + e.epoch) \div m.step)
              ELSE Near(e.lr, ExpRate(e.epoch), 10)
           /\ UNCHANGED m

Is(j) == m.kind = "opt" /\ m.judge = j
Skip == m.kind = "opt" /\ UNCHANGED m
Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Start" -> Start(e)
             [] e.e = "SStart" -> SStart(e)
             [] e.e = "SGrad" -> SGrad(e)
             [] e.e = "SDone" -> SDone(e)
             [] e.e = "PStart" -> PStart(e)
             [] e.e = "RStart" -> RStart(e)
             [] e.e = "PUpd" -> PUpd(e)
             [] e.e = "DStart" -> DStart(e)
             [] e.e = "Rate" -> Rate(e)
             [] e.e = "Lr" /\ Is("batches") -> B_Lr(e)
             [] e.e = "Grad" /\ Is("batches") -> B_Grad(e)
             [] e.e = "Upd" /\ Is("batches") -> B_Upd(e)
             [] e.e = "Eval" /\ Is("batches") -> B_Eval(e)
             [] e.e = "Done" /\ Is("batches") -> B_Done(e)
             [] e.e = "Lr" /\ Is("stop") -> S_Lr(e)
             [] e.e = "Eval" /\ Is("stop") -> S_Eval(e)
             [] e.e = "Done" /\ Is("stop") -> S_Done(e)
             [] e.e = "Lr" /\ Is("sag") -> A_Lr(e)
             [] e.e = "Grad" /\ Is("sag") -> A_Grad(e)
             [] e.e = "Upd" /\ Is("sag") -> A_Upd(e)
             [] e.e = "Eval" /\ Is("sag") -> A_Eval(e)
             [] e.e = "Lr" /\ Is("tg") -> T_Lr(e)
             [] e.e = "Upd" /\ Is("tg") -> T_Upd(e)
             [] e.e = "Eval" /\ Is("tg") -> T_Eval(e)
             [] e.e = "Grad" /\ Is("tg") -> Skip
             [] e.e = "Done" -> Skip
             [] OTHER -> FALSE
Init == l = 1 /\ m = None
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
==============================================================================
