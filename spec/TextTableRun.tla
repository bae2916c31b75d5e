----------------------------- MODULE TextTableRun -----------------------------
(* A reader that goes through the text character by character, and a caller    *)
(* that loads one text after the other into the same outputs.                  *)
EXTENDS TextTable
CONSTANTS Alphabet, MaxLen, Loads
\* rows: finished lines; row: fields of the line being read; num: the number being read
VARIABLES text, at, rows, row, num, X, y, failed, phase, loads, label
vars == <<text, at, rows, row, num, X, y, failed, phase, loads, label>>
None == [on |-> FALSE]
Start == [on |-> TRUE, neg |-> FALSE, digits |-> 0, after |-> -1, bad |-> FALSE]
Texts == {s \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} : Sound(s)}
Init == /\ text \in Texts /\ at = 1 /\ rows = <<>> /\ row = <<>> /\ num = None
        /\ X = <<>> /\ y = <<>> /\ failed = FALSE /\ phase = "read" /\ loads = 1 /\ label \in BOOLEAN
Take(c) == LET n == IF num.on THEN num ELSE Start IN
           IF c = 45 THEN [n EXCEPT !.neg = TRUE] ELSE IF c = 43 THEN n ELSE IF c = 46 THEN [n EXCEPT !.after = 0]
           ELSE [n EXCEPT !.digits = @ * 10 + (c - 48), !.after = IF @ < 0 THEN @ ELSE @ + 1]
Number(n) == (IF n.neg THEN -1 ELSE 1) * n.digits * Pow10(6 - (IF n.after < 0 THEN 0 ELSE n.after))
Flushed == IF num.on THEN Append(row, Number(num)) ELSE row
Read == /\ phase = "read" /\ at <= Len(text) /\ at' = at + 1
        /\ LET c == text[at] IN
           IF c = NL THEN rows' = Append(rows, Flushed) /\ row' = <<>> /\ num' = None
           ELSE IF Blank(c) THEN row' = Flushed /\ num' = None /\ UNCHANGED rows
           ELSE num' = Take(c) /\ UNCHANGED <<rows, row>>
        /\ UNCHANGED <<text, X, y, failed, phase, loads, label>>
\* the end of the text ends a line, too, unless nothing stands on it
End == /\ phase = "read" /\ at > Len(text)
       /\ rows' = IF Len(text) = 0 \/ text[Len(text)] = NL THEN rows ELSE Append(rows, Flushed)
       /\ phase' = "deliver" /\ UNCHANGED <<text, at, row, num, X, y, failed, loads, label>>
Deliver == /\ phase = "deliver" /\ phase' = "done"
           /\ LET full == NonBlank(rows) IN
              IF ~label THEN X' = rows /\ y' = <<>> /\ failed' = FALSE
              ELSE IF ~Rectangular(full) THEN failed' = TRUE /\ UNCHANGED <<X, y>>
              ELSE X' = Features(full) /\ y' = Labels(full) /\ failed' = FALSE
           /\ UNCHANGED <<text, at, rows, row, num, loads, label>>
Again == /\ phase = "done" /\ loads < Loads /\ loads' = loads + 1 /\ text' \in {t \in Texts : Len(t) = 3} /\ label' \in BOOLEAN
         /\ at' = 1 /\ rows' = <<>> /\ row' = <<>> /\ num' = None /\ phase' = "read" /\ UNCHANGED <<X, y, failed>>
Next == Read \/ End \/ Deliver \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
T == Table(text, 6)
\* the outputs hold the table of the last text and nothing else
C08_Table == phase = "done" => IF ~label THEN ~failed /\ X = T
             ELSE /\ failed = ~Rectangular(NonBlank(T))
                  /\ ~failed => Len(X) = Len(y) /\ \A i \in 1..Len(X) : Append(X[i], y[i]) = NonBlank(T)[i]
C08_EveryLine == phase = "done" => Len(rows) = Len(Lines(text))
C08_Terminates == <>(phase = "done")
==============================================================================
