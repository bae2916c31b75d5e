------------------------------ MODULE ReductionsRun ------------------------------
(* One pass over a line: running sum and prefix sums, Welford's mean and sum   *)
(* of squared deviations (as exact fractions), frequencies with the value that *)
(* first reached the highest one, a sorted copy by insertion, extremes with    *)
(* their positions, and a log-sum-exp that rescales when the maximum changes.  *)
EXTENDS Reductions
CONSTANTS Vals, MaxLen, Shift
VARIABLES u, at, sum, cum, m2, freq, top, often, sorted, hi, hiAt, lse
vars == <<u, at, sum, cum, m2, freq, top, often, sorted, hi, hiAt, lse>>
S == 100000
Init == /\ u \in UNION {[1..n -> {v + Shift : v \in Vals}] : n \in 1..MaxLen}
        /\ at = 0 /\ sum = 0 /\ cum = <<>> /\ m2 = <<0, 1>> /\ freq = [x \in Distinct(u) |-> 0] /\ top = 0 /\ often = 0
        /\ sorted = <<>> /\ hi = 0 /\ hiAt = 0 /\ lse = 0
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Insert(Tail(s), x)
\* sum of squared deviations of k+1 values from that of k: add (k x - sum)^2 / (k (k + 1)); kept over a common denominator
Add(f, num, den) == <<f[1] * den + num * f[2], f[2] * den>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(f) == LET g == Gcd(f[1], f[2]) IN <<f[1] \div g, f[2] \div g>>
Read == /\ at < Len(u) /\ at' = at + 1 /\ UNCHANGED u
        /\ LET x == u[at + 1] k == at IN
           /\ sum' = sum + x /\ cum' = Append(cum, sum + x)
           /\ m2' = IF k = 0 THEN m2 ELSE Reduce(Add(m2, (k * x - sum) * (k * x - sum), k * (k + 1)))
           /\ freq' = [freq EXCEPT ![x] = @ + 1]
           /\ IF freq[x] + 1 > often THEN often' = freq[x] + 1 /\ top' = x ELSE UNCHANGED <<often, top>>
           /\ sorted' = Insert(sorted, x)
           /\ IF k = 0 \/ x > hi THEN hi' = x /\ hiAt' = k + 1 ELSE UNCHANGED <<hi, hiAt>>
           \* lse: sum of exp(x - hi), scale S
           /\ lse' = IF k = 0 THEN S ELSE IF x > hi THEN MulDiv(lse, ExpFix(S * (hi - x), S), S) + S ELSE lse + ExpFix(S * (x - hi), S)
Next == Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == at = Len(u)
Result == IF often = 1 THEN sorted[1] ELSE top
C27_Sum == sum = Sum(SubSeq(u, 1, at)) /\ (at > 0 => cum[at] = Prefix(u, at))
C27_Var == Done => Near(MulDiv(m2[1], S, m2[2] * Len(u)), VarOf(u, 1, S), 1)
\* moving every value by the same amount does not change the variance
C27_VarShift == Done => VarOf(u, 1, S) = VarOf([i \in 1..Len(u) |-> u[i] - Shift], 1, S)
C27_Mode == Done => IsMode(u, Result, often)
C27_Median == Done => Median2(u) = sorted[(Len(u) + 1) \div 2] + sorted[(Len(u) \div 2) + 1]
C27_Max == Done => u[hiAt] = hi /\ \A i \in 1..Len(u) : u[i] <= hi /\ (i < hiAt => u[i] < hi)
C27_LogSumExp == Done => Near(S * hi + LnFix(lse, S), L!LogSumExp([i \in 1..Len(u) |-> S * u[i]], S), 4)
C27_Softmax == Done => LET p == L!Softmax([i \in 1..Len(u) |-> S * u[i]], S) IN Near(Sum(p), S, Len(u)) /\ \A i \in 1..Len(u) : p[i] \in 0..S
C27_Gini == Done => LET w == [i \in 1..Len(u) |-> 1] g == GiniOf(u, w, S) IN g \in 0..S /\ ((Cardinality(Distinct(u)) = 1) <=> (g = 0))
C27_Entropy == Done => LET w == [i \in 1..Len(u) |-> 1] e == EntropyOf(u, w, 1, S) IN
                 /\ e >= -3 /\ e <= MulDiv(LnFix(Cardinality(Distinct(u)) * S, S), S, LOG2(S)) + 3
                 /\ (\A x \in Distinct(u) : freq[x] = often) => Near(e, MulDiv(LnFix(Cardinality(Distinct(u)) * S, S), S, LOG2(S)), 3)
C27_Terminates == <>Done
==============================================================================
