------------------------------ MODULE CsvReader ------------------------------
(* Reading a CSV file as rodb does: a scan through a buffer filled by chunks, which notes where each record starts,
   and any number of direct reads at those places on another shared reader, themselves seeking and refilling a buffer.
   The text is any sequence over a small alphabet.
   Property: the scan delivers the records of CsvFraming, and a direct read at the place noted for a record delivers
   that same record, whatever was read before.                                                                       *)
EXTENDS CsvFraming, FiniteSets
CONSTANTS MaxLen, Chunk,
          MinusBuffered,   \* the place is the offset of the file minus what is still buffered (broken: FALSE)
          ResetBuffer      \* a seek throws the buffered bytes away (broken: FALSE)
Delim == 44
Alphabet == {97, Delim, Quote, LF}
VARIABLES text, pc, off, buf, scan, places, goff, gbuf, answer, reads
vars == <<text, pc, off, buf, scan, places, goff, gbuf, answer, reads>>
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Fresh == Start0
MinOf(a, b) == IF a < b THEN a ELSE b
Ref(s) == ScanFrom(s, 1, Delim)

Init == /\ text \in Texts
        /\ pc = "scan" /\ off = 0 /\ buf = <<>> /\ scan = Fresh /\ places = <<>>
        /\ goff = 0 /\ gbuf = <<>> /\ answer = <<>> /\ reads = 0

(* One record of the scan at a time: the place is noted first. *)
Place == IF MinusBuffered THEN off - Len(buf) ELSE off
(* Consumes one record from (buffer, offset): the rest of the buffer, the new offset, the row or none. *)
RECURSIVE Pull(_, _, _)
Pull(b, o, a) ==
  IF Len(a.rows) = 1 \/ a.mode = "bad" THEN [buf |-> b, off |-> o, a |-> a]
  ELSE IF b = <<>> /\ o = Len(text) THEN [buf |-> b, off |-> o, a |-> AtEnd(a)]
  ELSE IF b = <<>> THEN LET n == MinOf(Chunk, Len(text) - o) IN Pull(SubSeq(text, o + 1, o + n), o + n, a)
  ELSE Pull(Tail(b), o, Step(a, Head(b), Delim))
ScanOne == /\ pc = "scan"
           /\ LET p == Pull(buf, off, Fresh) IN
              /\ buf' = p.buf /\ off' = p.off
              /\ IF Len(p.a.rows) = 1
                 THEN scan' = [scan EXCEPT !.rows = Append(@, p.a.rows[1])] /\ places' = Append(places, Place) /\ UNCHANGED pc
                 ELSE scan' = [scan EXCEPT !.mode = p.a.mode] /\ pc' = "reads" /\ UNCHANGED places
           /\ UNCHANGED <<text, goff, gbuf, answer, reads>>
(* A direct read of record i. *)
Read(i) == /\ pc = "reads" /\ reads < 2
           /\ LET p == Pull(IF ResetBuffer THEN <<>> ELSE gbuf, IF ResetBuffer \/ gbuf = <<>> THEN places[i] ELSE goff, Fresh) IN
              /\ gbuf' = p.buf /\ goff' = p.off
              /\ answer' = <<i, p.a.rows>>
           /\ reads' = reads + 1
           /\ UNCHANGED <<text, pc, off, buf, scan, places>>
Next == ScanOne \/ \E i \in 1..Len(places) : Read(i)
Spec == Init /\ [][Next]_vars

ScanIsRef == pc = "reads" => scan.rows = Ref(text).rows /\ (scan.mode = "bad") = (Ref(text).mode = "bad")
ReadIsRecord == answer # <<>> => answer[2] = <<Ref(text).rows[answer[1]]>>
(* What is written canonically is read back. *)
RoundTrip == (pc = "reads" /\ scan.mode # "bad") =>
                Ref(WriteRows(scan.rows, Delim)).rows = scan.rows /\ Ref(WriteRows(scan.rows, Delim)).mode = "rec"
=============================================================================
