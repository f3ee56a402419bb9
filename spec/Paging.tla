------------------------------- MODULE Paging -------------------------------
(* The paging of an array output, call by call on the iterator of the results, for a client walking through the pages.
   Property: the pages put together are the complete result, whatever the size of the pages; a page never exceeds the
   maximum; the requests with a bad limit or offset get an error and nothing else.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxRecords, Max, Default,
          CapToMax,      \* the limit is lowered to the maximum (broken: FALSE)
          SkipIsFree,    \* skipped records do not count in the limit (broken: FALSE)
          StopAtEnd      \* reading stops at the first end of the results (broken: FALSE: the iterator starts again)
VARIABLES n, pc, limit, offset, size, cur, skipped, page, walked, replies
vars == <<n, pc, limit, offset, size, cur, skipped, page, walked, replies>>
None == 99   \* no limit given
Limits == {None} \cup (-1..(Max + 2))
Min(a, b) == IF a < b THEN a ELSE b

Init == /\ n \in 0..MaxRecords /\ size \in Limits
        /\ pc = "client" /\ limit = None /\ offset = 0 /\ cur = 0 /\ skipped = 0 /\ page = <<>> /\ walked = <<>> /\ replies = 0
Request(o) == /\ pc = "client" /\ limit' = size /\ offset' = o
              /\ pc' = "check" /\ UNCHANGED <<n, size, cur, skipped, page, walked, replies>>
Asked == IF size = None THEN Default ELSE size
Effective == IF CapToMax THEN Min(Asked, Max) ELSE Asked
Refused == (limit # None /\ limit < 1) \/ offset < 0
Check == /\ pc = "check"
         /\ pc' = IF Refused THEN "error" ELSE "skip"
         /\ cur' = 0 /\ skipped' = 0 /\ page' = <<>> /\ UNCHANGED <<n, size, limit, offset, walked, replies>>
NextRec == IF cur < n THEN cur + 1 ELSE 0
Skip == /\ pc = "skip"
        /\ IF skipped < offset /\ (NextRec # 0 \/ ~StopAtEnd)
           THEN cur' = (IF NextRec = 0 THEN 0 ELSE NextRec) /\ skipped' = skipped + 1 /\ UNCHANGED pc
           ELSE pc' = "take" /\ UNCHANGED <<cur, skipped>>
        /\ UNCHANGED <<n, size, limit, offset, page, walked, replies>>
Room == IF SkipIsFree THEN Len(page) < Effective ELSE Len(page) + skipped < Effective
Take == /\ pc = "take"
        /\ IF Room /\ NextRec # 0 THEN page' = Append(page, NextRec) /\ cur' = NextRec /\ UNCHANGED pc
           ELSE pc' = "reply" /\ UNCHANGED <<page, cur>>
        /\ UNCHANGED <<n, size, limit, offset, skipped, walked, replies>>
(* The client goes on from what it has got so far. *)
Reply == /\ pc = "reply" /\ replies' = replies + 1
         /\ IF offset = Len(walked) THEN walked' = walked \o page ELSE UNCHANGED walked
         /\ pc' = IF page = <<>> THEN "done" ELSE "client"
         /\ UNCHANGED <<n, size, limit, offset, cur, skipped, page>>
Next == Request(Len(walked)) \/ (replies = 0 /\ \E o \in -1..(MaxRecords + 1) : Request(o)) \/ Check \/ Skip \/ Take \/ Reply
Spec == Init /\ [][Next]_vars /\ WF_vars(Request(Len(walked)) \/ Check \/ Skip \/ Take \/ Reply)

All == [i \in 1..n |-> i]
PageIsCut == pc = "reply" => page = SubSeq(All, Min(offset, n) + 1, Min(n, offset + Min(Asked, Max)))
NeverTooMany == pc \in {"take", "reply"} => Len(page) <= Max
BadIsError == pc \in {"take", "skip", "reply"} => ~Refused
WalkIsPrefix == walked = SubSeq(All, 1, Len(walked))
WalkIsComplete == (pc = "done" /\ offset = Len(walked)) => walked = All
WalkEnds == <>(pc \in {"done", "error"})
=============================================================================
