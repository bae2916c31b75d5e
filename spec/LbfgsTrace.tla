------------------------------ MODULE LbfgsTrace -----------------------------
(* Trace validation of L-BFGS from the sequence of objective and gradient      *)
(* evaluations.  Which trials were accepted is not logged: TLC infers it.      *)
EXTENDS Lbfgs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m
vars == <<l, m>>

Begin(e) == m' = [phase |-> "none"]
Start(e) == m' = [phase |-> "start", c |-> e, x |-> e.x0, f |-> 0, g |-> <<>>, xp |-> <<>>, fp |-> 0, gp |-> <<>>, d1 |-> <<>>,
                  r |-> S, lo |-> 0, hi |-> -1, s0 |-> S, n |-> 0, k |-> 0, mem |-> <<>>, odd |-> FALSE, fs |-> <<>>]
C == m.c
\* ---------------------------------------------------------------- verdicts on the current trial
P == VSub(m.x, m.xp)
T == 10 + (Norm2(m.gp) + Norm2(P) + (IF m.g = <<>> THEN 0 ELSE Norm2(m.g))) \div 250000
Known == IsNum(m.f) /\ m.g # <<>> /\ Finite(m.g)
E1 == SufficientExcess(m.f, m.fp, m.gp, P, C.ftol)
E2 == CurvatureExcess(m.g, m.gp, P, C.wolfe)
E3 == StrongExcess(m.g, m.gp, P, C.wolfe)
MayHigh == ~IsNum(m.f) \/ E1 > -T
Pass1 == Known /\ E1 <= T
MayShort == Pass1 /\ C.cond # "ARMIJO" /\ E2 > -T
Pass2 == Pass1 /\ C.cond # "ARMIJO" /\ E2 <= T
MaySteep == Pass2 /\ C.cond # "WOLFE" /\ E3 > -T
MayAccept == \/ Pass1 /\ C.cond = "ARMIJO"
             \/ Pass2 /\ C.cond = "WOLFE"
             \/ Pass2 /\ C.cond # "WOLFE" /\ E3 <= T
Verdict(v) == CASE v = "high" -> MayHigh [] v = "short" -> MayShort [] v = "steep" -> MaySteep
\* ---------------------------------------------------------------- the step of the current trial against its limits
AbsStep == MulDiv(m.s0, m.r, S)
SurelyOut == m.n >= C.maxls \/ AbsStep < C.mins - C.mins \div 50 - 1 \/ AbsStep > C.maxs + C.maxs \div 50 + 1
MaybeOut == m.n >= C.maxls \/ AbsStep < C.mins + C.mins \div 50 + 2 \/ AbsStep > C.maxs - C.maxs \div 50 - 1
\* ---------------------------------------------------------------- stopping tests at the accepted point x of iteration k
XN == LET a == Norm2(m.x) IN IF a < S THEN S ELSE a
GradExcess == Norm2(m.g) - MulDiv(C.tol, XN, S)                \* <= 0: gradient test
PastF == IF C.past > 0 /\ m.k >= C.past THEN m.fs[m.k - C.past + 1] ELSE 0
DecExcess == LET big == IF Abs(m.f) > S THEN Abs(m.f) ELSE S IN Abs(PastF - m.f) - MulDiv(C.delta, big, S)   \* < 0: decrease test
HasPast == C.past > 0 /\ m.k >= C.past
SurelyStop == GradExcess < -8 \/ (HasPast /\ DecExcess < -5) \/ (C.maxit # 0 /\ m.k >= C.maxit)
MaybeStop == GradExcess <= 8 \/ (HasPast /\ DecExcess <= 5) \/ (C.maxit # 0 /\ m.k >= C.maxit)
\* ---------------------------------------------------------------- memory
Pair == [s |-> VSub(m.x, m.xp), y |-> VSub(m.g, m.gp)]
\* positive curvature beyond doubt, and large enough to compute with in fixed point
Sound(p) == /\ Norm2(p.s) >= 20000 /\ Norm2(p.y) >= 20000
            /\ Dot(p.s, p.y, S) >= MulDiv(Norm2(p.s), Norm2(p.y), 20 * S)
Curved(p) == Dot(p.s, p.y, S) > 20
AllSound(mem) == \A i \in 1..Len(mem) : Sound(mem[i])

\* ---------------------------------------------------------------- a new evaluation at x2
NewPoint(e) == [m EXCEPT !.x = e.x, !.f = e.f, !.g = <<>>]
First(e) == /\ m.phase = "start" /\ e.x = m.x
            /\ m' = [NewPoint(e) EXCEPT !.phase = "initial"]
FirstTrial(e) == /\ m.phase = "initial" /\ Known
                 /\ GradExcess >= -8                                      \* not stationary
                 /\ VNear(VSub(e.x, m.x), [i \in 1..Len(m.g) |-> - MulDiv(m.g[i], S, Norm2(m.g))], 4 + MulDiv(2, S, Norm2(m.g)))
                 /\ m' = [NewPoint(e) EXCEPT !.phase = "trial", !.xp = m.x, !.fp = m.f, !.gp = m.g, !.fs = <<m.f>>, !.n = 1, !.k = 1,
                                             !.d1 = VSub(e.x, m.x), !.s0 = MulDiv(S, S, Norm2(m.g)), !.r = S, !.lo = 0, !.hi = -1]
Rejected(e) == /\ m.phase = "trial" /\ ~SurelyOut
               /\ \E v \in {"high", "short", "steep"} :
                    /\ Verdict(v)
                    /\ LET hi == IF v = "short" THEN m.hi ELSE m.r
                           lo == IF v = "short" THEN m.r ELSE m.lo
                           r2 == NextStep(C.policy, v, m.r, lo, hi, C.dec, C.inc)
                       IN /\ r2 < BIG \div 2
                          /\ VNear(VSub(e.x, m.xp), VScale(m.d1, r2), 6 + 4 * (r2 \div S) + m.n + Norm2(m.d1) \div 100000)
                          /\ m' = [NewPoint(e) EXCEPT !.n = @ + 1, !.r = r2, !.lo = lo, !.hi = hi]
Accepted(e) == /\ m.phase = "trial" /\ MayAccept /\ ~SurelyStop
               /\ LET p2 == VSub(e.x, m.x)
                      mem == Remember(m.mem, Pair, C.mem)
                      t == 10 + (Norm2(m.g) + Norm2(p2)) \div 250000
                  IN /\ Dot(m.g, p2, S) <= t                               \* downhill
                     /\ AllSound(mem) => VNear(p2, Direction(m.g, mem), 200 + Norm2(p2) \div 20)
                     /\ m' = [NewPoint(e) EXCEPT !.xp = m.x, !.fp = m.f, !.gp = m.g, !.fs = Append(@, m.f), !.n = 1, !.k = @ + 1,
                                                 !.d1 = p2, !.s0 = S, !.r = S, !.lo = 0, !.hi = -1, !.mem = mem,
                                                 !.odd = @ \/ ~Curved(Pair)]
Val(e) == First(e) \/ FirstTrial(e) \/ Rejected(e) \/ Accepted(e)
Grad(e) == m.phase \in {"initial", "trial"} /\ e.x = m.x /\ m.g = <<>> /\ m' = [m EXCEPT !.g = e.g]
Done(e) == /\ e.ok
           /\ \/ m.phase = "initial" /\ Known /\ GradExcess <= 8 /\ e.coef = m.x
              \/ m.phase = "trial" /\ MayAccept /\ MaybeStop /\ e.coef = m.x
              \/ m.phase = "trial" /\ MaybeOut /\ (MayHigh \/ MayShort \/ MaySteep) /\ e.coef = m.xp
              \* the memory holds a pair without positive curvature: the next direction may not be downhill
              \/ m.phase = "trial" /\ MayAccept /\ (m.odd \/ ~Curved(Pair)) /\ e.coef = m.x
           /\ m' = [phase |-> "none"]
Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Start" -> Start(e)
             [] e.e = "Val" -> Val(e)
             [] e.e = "Grad" -> Grad(e)
             [] e.e = "Done" -> Done(e)
             [] OTHER -> FALSE
Init == l = 1 /\ m = [phase |-> "none"]
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
==============================================================================
