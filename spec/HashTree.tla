------------------------------ MODULE HashTree -------------------------------
(* Support counting in a hash tree (C04): the design and its meaning.          *)
(*                                                                             *)
(* Meaning: `cnt` maps every stored itemset to the number of support additions *)
(* since it was stored.  Design: `tree` maps a path of hash keys to a node,    *)
(* a leaf with a bucket of counts or an inner node; a leaf that reaches its    *)
(* capacity is split by the hash of the next item.  Itemsets may differ in     *)
(* length: one whose items are used up stays in the bucket of the node it      *)
(* reached, even when that node becomes an inner one.                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Itemsets,     \* the itemsets that may be stored
          Leafs,        \* leaf capacities
          Moduli        \* hash moduli
VARIABLES tree, cnt, leaf, mod
vars == <<tree, cnt, leaf, mod>>

Empty == [x \in {} |-> 0]
LeafNode(b) == [leaf |-> TRUE, bucket |-> b]
Inner == [leaf |-> FALSE, bucket |-> Empty]
Put(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]
AddTo(b, s, c) == Put(b, s, IF s \in DOMAIN b THEN b[s] + c ELSE c)
Key(s, i) == s[i] % mod

\* insert s with count c below path p (the items before p's length are consumed)
RECURSIVE Ins(_, _, _, _)
RECURSIVE InsAll(_, _, _)
Ins(t, p, s, c) ==
  LET d == Len(p)
      t1 == IF p \in DOMAIN t THEN t ELSE Put(t, p, LeafNode(Empty))
      nd == t1[p]
  IN IF d = Len(s) THEN Put(t1, p, [nd EXCEPT !.bucket = AddTo(@, s, c)])
     ELSE IF ~nd.leaf THEN Ins(t1, Append(p, Key(s, d + 1)), s, c)
     ELSE LET b == AddTo(nd.bucket, s, c) IN
          IF Cardinality(DOMAIN b) = leaf THEN InsAll(Put(t1, p, Inner), p, b)
          ELSE Put(t1, p, LeafNode(b))
InsAll(t, p, b) ==
  IF DOMAIN b = {} THEN t
  ELSE LET s == CHOOSE s \in DOMAIN b : TRUE IN
       InsAll(IF Len(s) = Len(p) THEN [t EXCEPT ![p].bucket = AddTo(@, s, b[s])]
              ELSE Ins(t, Append(p, Key(s, Len(p) + 1)), s, b[s]), p, [x \in DOMAIN b \ {s} |-> b[x]])

RECURSIVE Find(_, _)
\* the node where s belongs, or <<-1>> when the walk falls off the tree
Find(p, s) == IF p \notin DOMAIN tree THEN <<-1>>
              ELSE IF tree[p].leaf \/ Len(p) = Len(s) THEN p ELSE Find(Append(p, Key(s, Len(p) + 1)), s)

(* ------------------------------- meaning --------------------------------- *)
AbsInsert(c, s) == IF s \in DOMAIN c THEN c ELSE Put(c, s, 0)
AbsAdd(c, s) == IF s \in DOMAIN c THEN [c EXCEPT ![s] = @ + 1] ELSE c
AbsReport(c, t) == {s \in DOMAIN c : c[s] >= t}

(* -------------------------------- actions -------------------------------- *)
Init == /\ tree = Put(Empty, <<>>, LeafNode(Empty)) /\ cnt = Empty
        /\ leaf \in Leafs /\ mod \in Moduli
Insert(s) == /\ tree' = Ins(tree, <<>>, s, 0) /\ cnt' = AbsInsert(cnt, s) /\ UNCHANGED <<leaf, mod>>
Add(s) == /\ LET p == Find(<<>>, s) IN
             tree' = IF p # <<-1>> /\ s \in DOMAIN tree[p].bucket
                     THEN [tree EXCEPT ![p].bucket[s] = @ + 1] ELSE tree
          /\ cnt' = AbsAdd(cnt, s) /\ UNCHANGED <<leaf, mod>>
Next == \E s \in Itemsets : Insert(s) \/ Add(s)
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------ *)
Buckets == DOMAIN tree
OneSize == \A s, r \in Itemsets : Len(s) = Len(r)
Stored == UNION {DOMAIN tree[p].bucket : p \in Buckets}
SupportExact == /\ Stored = DOMAIN cnt
                /\ \A p \in Buckets : \A s \in DOMAIN tree[p].bucket : tree[p].bucket[s] = cnt[s]
StoredOnce == \A p, r \in Buckets : p # r => DOMAIN tree[p].bucket \cap DOMAIN tree[r].bucket = {}
Findable == \A s \in DOMAIN cnt : Find(<<>>, s) # <<-1>> /\ s \in DOMAIN tree[Find(<<>>, s)].bucket
InnerEmpty == \A p \in DOMAIN tree : ~tree[p].leaf => \A s \in DOMAIN tree[p].bucket : Len(s) = Len(p)
BelowCapacity == OneSize => \A p \in Buckets : Len(p) = Len(CHOOSE s \in Itemsets : TRUE) \/ Cardinality(DOMAIN tree[p].bucket) < leaf \/ leaf < 1
Small == \A s \in DOMAIN cnt : cnt[s] <= 2
==============================================================================
