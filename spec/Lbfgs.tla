-------------------------------- MODULE Lbfgs --------------------------------
(* L-BFGS: line-search conditions, trial-step policies, limited-memory         *)
(* directions and stopping tests, in fixed point with S counts per unit.       *)
EXTENDS FixMath
S == 1000000
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VNeg(a) == [i \in 1..Len(a) |-> - a[i]]
VScale(a, r) == [i \in 1..Len(a) |-> MulDiv(a[i], r, S)]
VNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
Finite(v) == \A i \in 1..Len(v) : IsNum(v[i])

\* three-valued comparisons: numbers known to within tol
Surely(x, tol) == x < -tol     \* x <= 0 beyond doubt
Maybe(x, tol) == x <= tol      \* x <= 0 possible

\* ---------------------------------------------------------------- conditions
\* along the displacement p = x - xp (a positive multiple of the direction)
SufficientExcess(f, fp, gp, p, ftol) == f - fp - MulDiv(ftol, Dot(gp, p, S), S)     \* <= 0: Armijo holds
CurvatureExcess(g, gp, p, wolfe) == MulDiv(wolfe, Dot(gp, p, S), S) - Dot(g, p, S)   \* <= 0: Wolfe holds
StrongExcess(g, gp, p, wolfe) == Dot(g, p, S) + MulDiv(wolfe, Dot(gp, p, S), S)       \* <= 0: strong Wolfe's upper side

\* ---------------------------------------------------------------- trial steps
\* verdict of a trial and the step that follows it, relative to the first step of the search
NextStep(policy, verdict, r, lo, hi, dec, inc) ==
  IF policy = "backtracking" THEN MulDiv(r, IF verdict = "short" THEN inc ELSE dec, S)
  ELSE IF hi < 0 THEN 2 * r ELSE (lo + hi) \div 2        \* hi < 0: no upper end yet

\* ---------------------------------------------------------------- memory
RECURSIVE Back(_, _, _)
\* first loop, newest pair first: returns <<direction, alphas oldest..newest>>
Back(q, mem, acc) ==
  IF mem = <<>> THEN <<q, acc>>
  ELSE LET p == mem[Len(mem)]
           a == Ratio(p.s, q, p.s, p.y, S)
       IN Back(VSub(q, VScale(p.y, a)), SubSeq(mem, 1, Len(mem) - 1), <<a>> \o acc)
RECURSIVE Forth(_, _, _, _)
Forth(q, mem, alphas, i) ==
  IF i > Len(mem) THEN q
  ELSE LET b == Ratio(mem[i].y, q, mem[i].s, mem[i].y, S)
       IN Forth(VAdd(q, VScale(mem[i].s, alphas[i] - b)), mem, alphas, i + 1)
\* minus (the limited-memory inverse Hessian applied to g)
Direction(g, mem) ==
  LET b == Back(VNeg(g), mem, <<>>)
      n == mem[Len(mem)]
  IN Forth(VScale(b[1], Ratio(n.s, n.y, n.y, n.y, S)), mem, b[2], 1)
Remember(mem, pair, size) ==
  LET m2 == Append(mem, pair) IN IF Len(m2) > size THEN SubSeq(m2, 2, Len(m2)) ELSE m2
==============================================================================
