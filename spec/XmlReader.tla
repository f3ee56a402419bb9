------------------------------ MODULE XmlReader ------------------------------
(* Reading the records of an XML file as rodb does: a streaming scan delivers each element whose path matches, noting
   for it where the previous one ended (0 for the first); later a record is read directly by streaming again from the
   noted place, preceded by the tags which are open there.
   A document is a balanced sequence of tags: 1 "<a>", 2 "<b>", 0 a closing tag.
   Property: the scan delivers the outermost elements selected by the path, in order, and a direct read delivers the
   record noted.                                                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Path,
          OpenTags,      \* "exact": as at that place; "none" and "first" (those of the first record) are broken
          EndsRecord     \* the place is the end of the previous record (broken: FALSE, the start of the previous one)
PathSteps ==   \* sequence of <<descendant?, tag>>
  CASE Path = 1 -> <<<<FALSE, 1>>, <<FALSE, 2>>>>                    \* /a/b
    [] Path = 2 -> <<<<TRUE, 2>>>>                                   \* //b
    [] Path = 3 -> <<<<FALSE, 1>>, <<TRUE, 2>>, <<FALSE, 1>>>>       \* /a//b/a
    [] OTHER    -> <<<<TRUE, 1>>, <<FALSE, 2>>, <<FALSE, 2>>>>       \* //a/b/b
VARIABLES doc, pc, recs, places, tags, answer, reads
vars == <<doc, pc, recs, places, tags, answer, reads>>
RECURSIVE Depth(_, _)
Depth(s, i) == IF i = 0 THEN 0 ELSE Depth(s, i - 1) + (IF s[i] = 0 THEN -1 ELSE 1)
RECURSIVE PathOk(_, _)
PathOk(p, st) == IF st = <<>> THEN p = <<>>
                 ELSE IF p = <<>> THEN FALSE
                 ELSE (Head(p) = Head(st)[2] /\ PathOk(Tail(p), Tail(st))) \/ (Head(st)[1] /\ PathOk(Tail(p), st))
RECURSIVE OpenAt(_, _)
OpenAt(s, i) ==   \* tags open after the first i ones
  IF i = 0 THEN <<>> ELSE LET o == OpenAt(s, i - 1) IN IF s[i] = 0 THEN SubSeq(o, 1, Len(o) - 1) ELSE Append(o, s[i])
RECURSIVE CloseOf(_, _, _)
CloseOf(s, i, d) == LET e == d + (IF s[i] = 0 THEN -1 ELSE 1) IN IF e = 0 THEN i ELSE CloseOf(s, i + 1, e)

(* The next record of a stream starting after position from, with the given open tags: <<start, end>> or <<>>. *)
RECURSIVE NextRec(_, _, _)
NextRec(s, from, open) ==
  IF from >= Len(s) THEN <<>>
  ELSE LET t == s[from + 1] IN
       IF t = 0 THEN IF open = <<>> THEN <<>> ELSE NextRec(s, from + 1, SubSeq(open, 1, Len(open) - 1))
       ELSE IF PathOk(Append(open, t), PathSteps) THEN <<from + 1, CloseOf(s, from + 1, 0)>>
       ELSE NextRec(s, from + 1, Append(open, t))

Selected(s) == {i \in 1..Len(s) : s[i] # 0 /\ PathOk(OpenAt(s, i), PathSteps)}
Outer(s) == {i \in Selected(s) : \A j \in Selected(s) : ~(j < i /\ i < CloseOf(s, j, 0))}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Ref(s) == LET o == Sorted(Outer(s)) IN [k \in 1..Len(o) |-> <<o[k], CloseOf(s, o[k], 0)>>]

Init == doc = <<>> /\ pc = "grow" /\ recs = <<>> /\ places = <<>> /\ tags = <<>> /\ answer = <<>> /\ reads = 0
(* Any document with one root. *)
Grow == /\ pc = "grow" /\ UNCHANGED <<recs, places, tags, answer, reads>>
        /\ \E t \in 0..2 : LET d == Depth(doc, Len(doc)) IN
             /\ doc' = Append(doc, t)
             /\ t = 0 => d > 0
             /\ t # 0 => Len(doc) + d + 2 <= MaxLen
             /\ pc' = IF t = 0 /\ d = 1 THEN "scan" ELSE "grow"
LastEnd == IF recs = <<>> THEN 0 ELSE recs[Len(recs)][2]
Place == IF recs = <<>> THEN 0 ELSE IF EndsRecord THEN LastEnd ELSE recs[Len(recs)][1]
Scan == /\ pc = "scan"
        /\ LET r == NextRec(doc, LastEnd, OpenAt(doc, LastEnd)) IN
           IF r = <<>> THEN pc' = "reads" /\ UNCHANGED <<recs, places, tags>>
           ELSE /\ recs' = Append(recs, r) /\ places' = Append(places, Place)
                /\ tags' = Append(tags, OpenAt(doc, LastEnd)) /\ UNCHANGED pc
        /\ UNCHANGED <<doc, answer, reads>>
Tags(i) == CASE i = 1 -> <<>> [] OpenTags = "exact" -> tags[i] [] OpenTags = "none" -> <<>> [] OTHER -> tags[2]
Get(i) == /\ pc = "reads" /\ reads = 0 /\ reads' = 1
          /\ answer' = <<i, NextRec(doc, places[i], Tags(i))>>
          /\ UNCHANGED <<doc, pc, recs, places, tags>>
Next == Grow \/ Scan \/ \E i \in 1..Len(places) : Get(i)
Spec == Init /\ [][Next]_vars
ScanIsSelection == pc = "reads" => recs = Ref(doc)
GetIsRecord == answer # <<>> => answer[2] = Ref(doc)[answer[1]]
=============================================================================
