----------------------------- MODULE SuffixTree -----------------------------
(* The wildcard index: a radix tree of all the suffixes of the indexed texts, each node carrying the list of the
   positions (records) whose text goes through it.  Texts are added record by record; every suffix is one action,
   as in the implementation, so that the tree is examined between any two of them.
   Property: once record r is completely added, looking a text up gives exactly the records containing it, in order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Alphabet, MaxLen, MaxRecords,
          CopyOnSplit,    \* the lower half of a split node keeps its own copy of the positions (broken: FALSE, it gets none)
          DedupLast,      \* a position already at the end of a list is not added again (broken: FALSE)
          CheckTail       \* a lookup ending inside a node compares the whole overlap (broken: FALSE)

RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET T == Texts(n - 1) IN T \cup {Append(t, a) : t \in T, a \in Alphabet}
AllTexts == Texts(MaxLen)

VARIABLES recs,    \* completely or partially added texts, in order
          suffix,  \* number of suffixes of the last text added so far
          nodes    \* sequence of [v |-> text on the edge, kids |-> seq of node numbers, pos |-> seq of positions]; 1 is the root
vars == <<recs, suffix, nodes>>

Root == 1
NewNode(v, kids, pos) == [v |-> v, kids |-> kids, pos |-> pos]
Common(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                    ks == {k \in 0..m : SubSeq(a, 1, k) = SubSeq(b, 1, k)}
                IN CHOOSE k \in ks : \A j \in ks : j <= k
AddPos(list, p) == IF DedupLast /\ list # <<>> /\ list[Len(list)] = p THEN list ELSE Append(list, p)
From(t, i) == SubSeq(t, i, Len(t))

FindChild(ns, parent, t) ==   \* the child sharing a prefix with t, 0 if none
  LET js == {j \in 1..Len(ns[parent].kids) : Common(ns[ns[parent].kids[j]].v, t) > 0}
  IN IF js = {} THEN 0 ELSE ns[parent].kids[CHOOSE j \in js : \A k \in js : j <= k]

RECURSIVE AddSuffix(_, _, _, _)
AddSuffix(ns, parent, t, p) ==
  IF t = <<>> THEN ns
  ELSE LET c == FindChild(ns, parent, t) IN
    IF c = 0
    THEN [Append(ns, NewNode(t, <<>>, <<p>>)) EXCEPT ![parent].kids = Append(@, Len(ns) + 1)]
    ELSE LET k == Common(ns[c].v, t)
             split == IF k < Len(ns[c].v)
                      THEN [Append(ns, NewNode(From(ns[c].v, k + 1), ns[c].kids, IF CopyOnSplit THEN ns[c].pos ELSE <<>>))
                              EXCEPT ![c].v = SubSeq(@, 1, k), ![c].kids = <<Len(ns) + 1>>]
                      ELSE ns
             touched == [split EXCEPT ![c].pos = AddPos(@, p)]
         IN AddSuffix(touched, c, From(t, k + 1), p)

RECURSIVE Lookup(_, _, _)
Lookup(ns, parent, q) ==
  IF q = <<>> THEN (IF parent = Root THEN <<>> ELSE ns[parent].pos)
  ELSE LET c == FindChild(ns, parent, q) IN
    IF c = 0 THEN <<>>
    ELSE LET k == Common(ns[c].v, q) IN
      IF CheckTail /\ k < Len(ns[c].v) /\ k < Len(q) THEN <<>>
      ELSE Lookup(ns, c, From(q, Len(ns[c].v) + 1))

Init == recs = <<>> /\ suffix = 0 /\ nodes = <<NewNode(<<>>, <<>>, <<>>)>>
Complete == IF recs = <<>> THEN TRUE ELSE suffix = Len(recs[Len(recs)])
Start == Complete /\ Len(recs) < MaxRecords /\ \E t \in AllTexts : recs' = Append(recs, t) /\ suffix' = 0 /\ UNCHANGED nodes
AddNext == /\ ~Complete
           /\ suffix' = suffix + 1
           /\ nodes' = AddSuffix(nodes, Root, From(recs[Len(recs)], suffix + 1), Len(recs))
           /\ UNCHANGED recs
Next == Start \/ AddNext
Spec == Init /\ [][Next]_vars

Contains(t, q) == \E i \in 0..(Len(t) - Len(q)) : SubSeq(t, i + 1, i + Len(q)) = q
Wanted(q) == IF q = <<>> THEN <<>> ELSE SelectSeq([i \in 1..Len(recs) |-> i], LAMBDA i : Contains(recs[i], q))

LookupIsExact == Complete => \A q \in AllTexts : Lookup(nodes, Root, q) = Wanted(q)
(* Even in the middle of a text, nothing is found that is not there, and earlier records are all found. *)
NeverWrong == \A q \in AllTexts : LET r == Lookup(nodes, Root, q) IN
                /\ \A i \in 1..Len(r) : Contains(recs[r[i]], q)
                /\ \A i \in 1..(Len(r) - 1) : r[i] < r[i + 1]
(* Shape: siblings never share a first letter; an edge is never empty; children hold a part of their parent's positions. *)
RadixShape == \A n \in 1..Len(nodes) :
  /\ n # Root => nodes[n].v # <<>>
  /\ \A i, j \in 1..Len(nodes[n].kids) : i # j => Common(nodes[nodes[n].kids[i]].v, nodes[nodes[n].kids[j]].v) = 0
  /\ n # Root => \A i \in 1..Len(nodes[n].kids) : \A j \in 1..Len(nodes[nodes[n].kids[i]].pos) :
        \E m \in 1..Len(nodes[n].pos) : nodes[n].pos[m] = nodes[nodes[n].kids[i]].pos[j]
=============================================================================
