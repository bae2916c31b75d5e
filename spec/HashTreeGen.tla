----------------------------- MODULE HashTreeGen -----------------------------
(* Random behaviours of HashTree, written as scripts for the driver: a header  *)
(* <<leaf capacity, modulus>> and then <<op, itemset...>> with op 1 insert,    *)
(* 2 add support, 3 report at the threshold that follows.                      *)
EXTENDS HashTree, TLC, Json
VARIABLES hist, done
MaxLen == 40
GenSets == {s \in [1..3 -> 1..7] : s[1] < s[2] /\ s[2] < s[3]}
MixedSets == {<<>>} \cup [1..1 -> 1..5] \cup {s \in [1..2 -> 1..5] : s[1] < s[2]} \cup {s \in [1..3 -> 1..5] : s[1] < s[2] /\ s[2] < s[3]}
GInit == Init /\ hist = <<<<leaf, mod>>>> /\ done = FALSE
Op(o) == hist' = Append(hist, o) /\ UNCHANGED done
GNext == IF Len(hist) < MaxLen
         THEN \/ \E s \in Itemsets : Insert(s) /\ Op(<<1>> \o s)
              \/ \E w \in 1..3 : \E s \in DOMAIN cnt : Add(s) /\ Op(<<2>> \o s)
              \/ \E t \in 0..3 : Op(<<3, t>>) /\ UNCHANGED vars
         ELSE ~done /\ done' = TRUE /\ UNCHANGED <<vars, hist>> /\ PrintT("@@" \o ToJson(hist))
GSpec == GInit /\ [][GNext]_<<vars, hist, done>>
==============================================================================
