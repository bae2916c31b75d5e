------------------------------- MODULE Apriori -------------------------------
(* Frequent itemsets and association rules (C05).                              *)
(* Meaning: Frequent / Rules by definition.  Design: level-wise join of        *)
(* itemsets sharing all but their largest item, counted against the database.  *)
EXTENDS FixMath, FiniteSets, TLC

\* a database is a sequence of sets of items
CountIn(db, S) == Cardinality({i \in 1..Len(db) : S \subseteq db[i]})
ItemsOf(db) == UNION {db[i] : i \in 1..Len(db)}
NonEmptySubsets(S) == (SUBSET S) \ {{}}
Frequent(db, m) == {S \in NonEmptySubsets(ItemsOf(db)) : CountIn(db, S) >= m /\ CountIn(db, S) > 0}
\* rules A => F \ A of the frequent itemsets F with confidence at least cn / cd
RulesOf(F, count, cn, cd) ==
  UNION {{<<A, S \ A>> : A \in {B \in NonEmptySubsets(S) : B # S /\ count[S] * cd >= cn * count[B]}} : S \in F}

CONSTANTS Items, MaxDb
VARIABLES db, m, prev, all, pc
vars == <<db, m, prev, all, pc>>

Init == /\ \E n \in 1..MaxDb : db \in [1..n -> SUBSET Items]
        /\ m \in 1..MaxDb /\ prev = {} /\ all = {} /\ pc = "level1"
Level1 == /\ pc = "level1"
          /\ prev' = {{i} : i \in {j \in ItemsOf(db) : CountIn(db, {j}) >= m}}
          /\ all' = prev' /\ pc' = "join" /\ UNCHANGED <<db, m>>
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* join two sets equal up to their largest items
Joinable(A, B) == A # B /\ Cardinality(A) = Cardinality(B) /\ A \ {MaxOf(A)} = B \ {MaxOf(B)}
Join == /\ pc = "join"
        /\ IF Cardinality(prev) <= 1 THEN pc' = "done" /\ UNCHANGED <<prev, all>>
           ELSE /\ LET cand == {A \union B : <<A, B>> \in {p \in prev \X prev : Joinable(p[1], p[2])}} IN
                   prev' = {C \in cand : CountIn(db, C) >= m}
                /\ all' = all \union prev' /\ UNCHANGED pc
        /\ UNCHANGED <<db, m>>
Next == Level1 \/ Join
Spec == Init /\ [][Next]_vars
Sound == \A S \in all : CountIn(db, S) >= m
Complete == pc = "done" => all = Frequent(db, m)
LevelComplete == pc = "join" /\ prev # {} =>
   LET k == Cardinality(CHOOSE S \in prev : TRUE) IN prev = {S \in Frequent(db, m) : Cardinality(S) = k}
\* anti-monotonicity: what makes level-wise search complete
DownClosed == pc = "done" => \A S \in all : \A T \in NonEmptySubsets(S) : T \in all
==============================================================================
