--------------------------- MODULE WildcardBuild ---------------------------
(* Building the file of a wildcard index through its buffer (see BufferedStream), and dying at any point.
   The file is a sequence of cells: the first is the header, holding the mark which says that the build has ended, the
   others are nodes, appended and replaced as the records are added.  Cells from bufferOffset on are in the buffer,
   which goes to the file cell after cell when it is full; the cells before it are replaced in the file directly.
   A death leaves the file as it is at that moment, even in the middle of a flush; so "in every state" is "whenever it
   dies".  Property: a file marked as completed holds every node in its last version.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxNodes, MaxWrites, MaxBuffer,
          FlushFirst,    \* the buffer is flushed before the mark is set
          MarkLast       \* broken when FALSE: the header is marked from the beginning
VARIABLES file, buffer, bufferOffset, flushing, phase, ver
vars == <<file, buffer, bufferOffset, flushing, phase, ver>>
Header(done) == [done |-> done]
Node(v) == [v |-> v]
Ideal(i) == IF i = 1 THEN Header(TRUE) ELSE Node(ver[i - 1])
Size == bufferOffset + Len(buffer)
Init == file = <<>> /\ buffer = <<>> /\ bufferOffset = 0 /\ flushing = 0 /\ phase = "header" /\ ver = <<>>

(* Writing one cell; then the buffer may have to be flushed. *)
Put(i, x) ==
  IF i <= bufferOffset THEN file' = [file EXCEPT ![i] = x] /\ UNCHANGED <<buffer, bufferOffset, flushing>>
  ELSE /\ buffer' = IF i - bufferOffset <= Len(buffer) THEN [buffer EXCEPT ![i - bufferOffset] = x] ELSE Append(buffer, x)
       /\ flushing' = IF Len(buffer') > MaxBuffer THEN 1 ELSE 0
       /\ UNCHANGED <<file, bufferOffset>>
FlushStep == /\ flushing > 0
             /\ file' = IF bufferOffset + flushing <= Len(file) THEN [file EXCEPT ![bufferOffset + flushing] = buffer[flushing]] ELSE Append(file, buffer[flushing])
             /\ IF flushing = Len(buffer) THEN bufferOffset' = bufferOffset + Len(buffer) /\ buffer' = <<>> /\ flushing' = 0
                ELSE flushing' = flushing + 1 /\ UNCHANGED <<buffer, bufferOffset>>
             /\ UNCHANGED <<phase, ver>>
Idle == flushing = 0
WriteHeader == /\ Idle /\ phase = "header" /\ Put(1, Header(~MarkLast)) /\ phase' = "data" /\ UNCHANGED ver
Total == LET RECURSIVE S(_)
             S(i) == IF i = 0 THEN 0 ELSE ver[i] + S(i - 1) IN S(Len(ver))
AddNode == /\ Idle /\ phase = "data" /\ Len(ver) < MaxNodes /\ Total < MaxWrites
           /\ ver' = Append(ver, 1) /\ Put(Size + 1, Node(1)) /\ UNCHANGED phase
Change == /\ Idle /\ phase = "data" /\ Total < MaxWrites
          /\ \E i \in 1..Len(ver) : ver' = [ver EXCEPT ![i] = @ + 1] /\ Put(i + 1, Node(ver[i] + 1))
          /\ UNCHANGED phase
Flush(from, to) == /\ Idle /\ phase = from /\ phase' = to
                   /\ flushing' = IF buffer = <<>> THEN 0 ELSE 1
                   /\ UNCHANGED <<file, buffer, bufferOffset, ver>>
NoMore == Idle /\ phase = "data" /\ phase' = (IF FlushFirst THEN "flush1" ELSE "mark") /\ UNCHANGED <<file, buffer, bufferOffset, flushing, ver>>
Mark == Idle /\ phase = "mark" /\ Put(1, Header(TRUE)) /\ phase' = "flush2" /\ UNCHANGED ver
Next == FlushStep \/ WriteHeader \/ AddNode \/ Change \/ NoMore \/ Flush("flush1", "mark") \/ Mark \/ Flush("flush2", "done")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Completed == file # <<>> /\ file[1] = Header(TRUE)
OnlyCompleteIsMarked == Completed => Len(file) = Len(ver) + 1 /\ \A i \in 1..Len(file) : file[i] = Ideal(i)
EventuallyMarked == <>(phase = "done" /\ Completed)
=============================================================================
