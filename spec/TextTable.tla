------------------------------- MODULE TextTable -------------------------------
(* What a text of whitespace-separated numbers means.  A text is a sequence of *)
(* character codes.                                                            *)
EXTENDS FixMath, FiniteSets
NL == 10
Blanks == {9, 11, 12, 13, 32}
Blank(c) == c \in Blanks
NotBlanks == (0..127) \ Blanks
Digit(c) == c \in 48..57
\* position of the first element of s from position i on that is in C, or Len(s) + 1
RECURSIVE Find(_, _, _)
Find(s, i, C) == IF i > Len(s) THEN Len(s) + 1 ELSE IF s[i] \in C THEN i ELSE Find(s, i + 1, C)
\* the lines; a newline ends a line, and what follows the last one is a line unless it is empty
RECURSIVE LinesFrom(_, _)
LinesFrom(s, i) == IF i > Len(s) THEN <<>> ELSE LET j == Find(s, i, {NL}) IN <<SubSeq(s, i, j - 1)>> \o LinesFrom(s, j + 1)
Lines(s) == LinesFrom(s, 1)
\* the maximal runs of non-blank characters of a line
RECURSIVE FieldsFrom(_, _)
FieldsFrom(s, i) == LET a == Find(s, i, NotBlanks) IN
                    IF a > Len(s) THEN <<>> ELSE LET b == Find(s, a, Blanks) IN <<SubSeq(s, a, b - 1)>> \o FieldsFrom(s, b)
Fields(s) == FieldsFrom(s, 1)
\* a field is  [sign] digits [. digits] [e [sign] digits],  with at least one digit before the exponent
Sign(s) == IF s # <<>> /\ s[1] = 45 THEN -1 ELSE 1
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
E == {69, 101}
Point == {46}
Mantissa(s) == LET u == Unsigned(s) IN SubSeq(u, 1, Find(u, 1, E) - 1)
Whole(s) == LET m == Mantissa(s) IN SubSeq(m, 1, Find(m, 1, Point) - 1)
Decimals(s) == LET m == Mantissa(s) IN SubSeq(m, Find(m, 1, Point) + 1, Len(m))
Exponent(s) == LET u == Unsigned(s) IN SubSeq(u, Find(u, 1, E) + 1, Len(u))
AllDigits(s) == \A i \in 1..Len(s) : Digit(s[i])
WellFormed(s) == LET u == Unsigned(s) IN
  /\ AllDigits(Whole(s)) /\ AllDigits(Decimals(s)) /\ Len(Whole(s)) + Len(Decimals(s)) > 0
  /\ Find(u, 1, E) <= Len(u) => AllDigits(Unsigned(Exponent(s))) /\ Unsigned(Exponent(s)) # <<>>
RECURSIVE Natural(_)
Natural(s) == IF s = <<>> THEN 0 ELSE Natural(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
\* 10^places times the number; it must be a whole number
Value(s, places) == LET p == places - Len(Decimals(s)) + Sign(Exponent(s)) * Natural(Unsigned(Exponent(s)))
                        n == Natural(Whole(s) \o Decimals(s))
                    IN Sign(s) * (IF p >= 0 THEN n * Pow10(p) ELSE n \div Pow10(-p))
LineRow(line, places) == LET f == Fields(line) IN Strict([j \in 1..Len(f) |-> Value(f[j], places)])
Table(s, places) == LET t == Lines(s) IN Strict([i \in 1..Len(t) |-> LineRow(t[i], places)])
Full(r) == Len(r) > 0
AllFields(s) == LET t == Lines(s) IN {Fields(t[i]) : i \in 1..Len(t)}
Sound(s) == \A f \in AllFields(s) : \A j \in 1..Len(f) : WellFormed(f[j])
\* a table with a label column: the lines that are not blank, all of one width
NonBlank(T) == SelectSeq(T, Full)
Rectangular(T) == Len(T) > 0 /\ \A i \in 1..Len(T) : Len(T[i]) = Len(T[1])
Features(Y) == LET T == Strict(Y) IN Strict([i \in 1..Len(T) |-> SubSeq(T[i], 1, Len(T[i]) - 1)])
Labels(Y) == LET T == Strict(Y) IN Strict([i \in 1..Len(T) |-> T[i][Len(T[i])]])
==============================================================================
