------------------------------- MODULE SplitsRun -------------------------------
(* The shuffle as the code makes it: an index vector is permuted by swaps      *)
(* (Fisher-Yates with every possible draw), then the rows and the labels are   *)
(* moved by that one permutation, one after the other; then the data is cut    *)
(* in two, and a part is divided at a threshold.                               *)
EXTENDS Splits
CONSTANTS MaxRows, Vals, Dens
VARIABLES X, y, idx, at, X2, y2, phase, ratio, part, rest, sides
vars == <<X, y, idx, at, X2, y2, phase, ratio, part, rest, sides>>
Init == /\ X \in UNION {[1..n -> {<<v>> : v \in Vals}] : n \in 1..MaxRows}
        /\ y = [i \in 1..Len(X) |-> 100 + i]        \* labels tell the rows apart
        /\ idx = [i \in 1..Len(X) |-> i - 1] /\ at = 2
        /\ X2 = X /\ y2 = y /\ phase \in {"shuffle", "cut"}
        /\ ratio \in {<<num, den>> \in (0..4) \X Dens : num <= den} /\ part = <<>> /\ rest = <<>> /\ sides = <<>>
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Draw == /\ phase = "shuffle" /\ at <= Len(X) /\ \E j \in 1..at : idx' = Swap(idx, at, j)
        /\ at' = at + 1 /\ UNCHANGED <<X, y, X2, y2, phase, ratio, part, rest, sides>>
\* row i goes to the place the permutation gives it
Moved(s) == [p \in 1..Len(s) |-> s[CHOOSE i \in 1..Len(s) : idx[i] + 1 = p]]
MoveRows == phase = "shuffle" /\ at > Len(X) /\ X2' = Moved(X) /\ phase' = "labels" /\ UNCHANGED <<X, y, idx, at, y2, ratio, part, rest, sides>>
MoveLabels == phase = "labels" /\ y2' = Moved(y) /\ phase' = "cut" /\ UNCHANGED <<X, y, idx, at, X2, ratio, part, rest, sides>>
Cut == /\ phase = "cut"
       /\ LET k == TrainSize(Len(X), ratio[1], ratio[2]) D == Pairs(X2, y2) IN
          part' = SubSeq(D, 1, k) /\ rest' = SubSeq(D, k + 1, Len(D))
       /\ phase' = "divide" /\ UNCHANGED <<X, y, idx, at, X2, y2, ratio, sides>>
\* rows are sent to the sides one by one
RECURSIVE Send(_, _, _, _)
Send(i, t, keep, drop) == IF i > Len(X2) THEN <<keep, drop>>
                          ELSE IF X2[i][1] <= t THEN Send(i + 1, t, Append(keep, i - 1), drop) ELSE Send(i + 1, t, keep, Append(drop, i - 1))
Divide == phase = "divide" /\ phase' = "done" /\ sides' = [t \in Vals |-> Send(1, t, <<>>, <<>>)] /\ UNCHANGED <<X, y, idx, at, X2, y2, ratio, part, rest>>
Next == Draw \/ MoveRows \/ MoveLabels \/ Cut \/ Divide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
C07_Permutation == IsPermutation(idx, Len(X))
C07_Paired == phase \in {"cut", "divide", "done"} => SameBag(Pairs(X, y), Pairs(X2, y2))
C07_Partition == phase \in {"divide", "done"} => IsSplit(Pairs(X2, y2), part, rest, ratio[1], ratio[2], FALSE) /\ IsSplit(Pairs(X, y), part, rest, ratio[1], ratio[2], TRUE)
C07_Sides == phase = "done" => \A t \in Vals : IsDivision(X2, 1, t, sides[t][1], sides[t][2]) /\ Len(sides[t][1]) + Len(sides[t][2]) = Len(X)
\* the parts have the sizes the ratio asks for, to within one row
C07_Sizes == phase = "done" => Len(part) * ratio[2] <= Len(X) * ratio[1] /\ Len(X) * ratio[1] < (Len(part) + 1) * ratio[2]
C07_Terminates == <>(phase = "done")
==============================================================================
