------------------------------- MODULE LossTrace -----------------------------
(* Trace validation of loss evaluations.  The object's answers depend on the   *)
(* arguments of the call only, whatever was evaluated before.                  *)
EXTENDS Losses, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m
vars == <<l, m>>
Begin(e) == m' = [kind |-> "none"]
Make(e) == m' = [kind |-> e.kind, s |-> e.s, lam |-> e.lam, par |-> e.par, flt |-> e.flt]
DD(e) == [kind |-> m.kind, s |-> m.s, lam |-> m.lam, par |-> m.par, X |-> e.X, y |-> e.y]
\* rounding: entries of X are at most e.xm units and the terms of the sums are at most e.mag counts large
Tol(e) == 6 + 2 * e.xm + 2 * Len(e.X) + (IF m.flt THEN e.mag \div 50000 ELSE e.mag \div 10000000)
Value_(e) == /\ m.kind # "none" /\ e.ok /\ e.same
             /\ Holds(Near(e.f, Value(DD(e), e.w), Tol(e)))
             /\ UNCHANGED m
Grad_(e) == /\ m.kind # "none" /\ e.ok /\ e.same
            /\ Holds(GradOk(DD(e), e.w, e.g, 1 + (IF m.flt THEN e.mag \div 50000 ELSE 0), Tol(e)))
            /\ UNCHANGED m
Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Make" -> Make(e)
             [] e.e = "Value" -> Value_(e)
             [] e.e = "Grad" -> Grad_(e)
             [] OTHER -> FALSE
Init == l = 1 /\ m = [kind |-> "none"]
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
==============================================================================
