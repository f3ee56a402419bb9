---------------------------- MODULE SharedReader ----------------------------
(* Requests running at the same time read records by their position through the one reader of an input (a file offset
   and the bytes already buffered), then convert them with a parser which is shared too.
   A record is two blocks of the file; reading fills a buffer of several blocks; a record in Broken cannot be read, and
   leaves the reader in an error state.
   Property: whatever the interleaving, each read gives the record at the position asked for (an error for a broken
   one), so that an answer does not depend on the other requests, before or at the same time.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Clients, Records, Broken, MaxReads, BufferBlocks,
          Locked,       \* a read holds a lock from the seek to the end of the record
          Reset,        \* seeking also empties the buffer and forgets an error
          OwnDecoder    \* each conversion has its own decoder
VARIABLES off, buf, stuck, lock, dec, pc, want, part, reads, bad
vars == <<off, buf, stuck, lock, dec, pc, want, part, reads, bad>>
File == [i \in 1..(2 * Records) |-> <<(i + 1) \div 2, 2 - (i % 2)>>]
Right(r) == IF r \in Broken THEN <<"error">> ELSE <<<<r, 1>>, <<r, 2>>>>
Nothing == <<>>
Init == /\ off = 0 /\ buf = <<>> /\ stuck = FALSE /\ lock = 0 /\ dec = <<1, 1>>
        /\ pc = [c \in Clients |-> "idle"] /\ want = [c \in Clients |-> 1] /\ part = [c \in Clients |-> Nothing]
        /\ reads = [c \in Clients |-> 0] /\ bad = FALSE
Ask(c, r) == /\ pc[c] = "idle" /\ reads[c] < MaxReads
             /\ Locked => lock = 0
             /\ lock' = IF Locked THEN c ELSE lock
             /\ pc' = [pc EXCEPT ![c] = "seek"] /\ want' = [want EXCEPT ![c] = r]
             /\ reads' = [reads EXCEPT ![c] = @ + 1] /\ part' = [part EXCEPT ![c] = Nothing]
             /\ UNCHANGED <<off, buf, stuck, dec, bad>>
Seek(c) == /\ pc[c] = "seek" /\ pc' = [pc EXCEPT ![c] = "read"]
           /\ off' = 2 * (want[c] - 1)
           /\ IF Reset THEN buf' = <<>> /\ stuck' = FALSE ELSE UNCHANGED <<buf, stuck>>
           /\ UNCHANGED <<lock, dec, want, part, reads, bad>>
Upto == IF off + BufferBlocks < Len(File) THEN off + BufferBlocks ELSE Len(File)
Unlock == lock' = IF Locked THEN 0 ELSE lock
Answer(c, a) == /\ pc' = [pc EXCEPT ![c] = "idle"] /\ bad' = (bad \/ a # Right(want[c]))
Read(c) ==
  /\ pc[c] = "read"
  /\ LET filled == IF buf = <<>> THEN SubSeq(File, off + 1, Upto) ELSE buf
         off2 == IF buf = <<>> THEN Upto ELSE off
     IN IF stuck \/ filled = <<>> \/ (filled # <<>> /\ Head(filled)[1] \in Broken)
        THEN /\ stuck' = TRUE /\ buf' = filled /\ off' = off2 /\ Answer(c, <<"error">>) /\ Unlock
             /\ UNCHANGED <<dec, want, part, reads>>
        ELSE /\ buf' = Tail(filled) /\ off' = off2
             /\ part' = [part EXCEPT ![c] = Append(@, Head(filled))]
             /\ IF Len(part[c]) = 1 THEN pc' = [pc EXCEPT ![c] = "decode1"] /\ Unlock ELSE UNCHANGED <<pc, lock>>
             /\ UNCHANGED <<stuck, dec, want, reads, bad>>
Decode1(c) == /\ pc[c] = "decode1" /\ pc' = [pc EXCEPT ![c] = "decode2"]
              /\ dec' = IF OwnDecoder THEN dec ELSE part[c][1]
              /\ UNCHANGED <<off, buf, stuck, lock, want, part, reads, bad>>
Decode2(c) == /\ pc[c] = "decode2"
              /\ Answer(c, <<IF OwnDecoder THEN part[c][1] ELSE dec, part[c][2]>>)
              /\ UNCHANGED <<off, buf, stuck, lock, dec, want, part, reads>>
Next == \E c \in Clients : Seek(c) \/ Read(c) \/ Decode1(c) \/ Decode2(c) \/ \E r \in 1..Records : Ask(c, r)
Spec == Init /\ [][Next]_vars
AnswersAreRight == ~bad
=============================================================================
