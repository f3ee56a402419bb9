--------------------------- MODULE BufferedStream ---------------------------
(* The file of the wildcard index: appended and replaced bytes go to a buffer holding the end of the file, which is
   flushed when it grows over its maximum; bytes before the buffer are replaced in the file directly.
   Property: reading any range gives what was last written there, and after a flush the file alone holds everything.
   A crash leaves the file without the buffer.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxBuffer, MaxSize, Chunk, MaxWrites,
          SplitReplace   \* a replacement across the border is cut in two (broken: FALSE, it all goes to the file)
VARIABLES file, bufferOffset, buffer, ideal, n
vars == <<file, bufferOffset, buffer, ideal, n>>

Min(a, b) == IF a < b THEN a ELSE b
Over(base, off, data) ==   \* base with data written at off (0-based), extended with data if needed
  [i \in 1..(IF off + Len(data) > Len(base) THEN off + Len(data) ELSE Len(base)) |->
     IF i > off /\ i <= off + Len(data) THEN data[i - off] ELSE IF i <= Len(base) THEN base[i] ELSE 0]

Init == file = <<>> /\ bufferOffset = 0 /\ buffer = <<>> /\ ideal = <<>> /\ n = 0

FlushIf(f, bo, b) == IF Len(b) > MaxBuffer THEN <<Over(f, bo, b), bo + Len(b), <<>>>> ELSE <<f, bo, b>>
Write(off, len) ==
  LET data == [i \in 1..len |-> n + 1]
      toFile == IF off < bufferOffset THEN (IF SplitReplace THEN Min(len, bufferOffset - off) ELSE len) ELSE 0
      f2 == IF toFile > 0 THEN Over(file, off, SubSeq(data, 1, toFile)) ELSE file
      rest == SubSeq(data, toFile + 1, len)
      b2 == IF rest = <<>> THEN buffer ELSE Over(buffer, off + toFile - bufferOffset, rest)
      r == FlushIf(f2, bufferOffset, b2)
  IN /\ n < MaxWrites
     /\ off <= Len(ideal) /\ off + len <= MaxSize
     /\ file' = r[1] /\ bufferOffset' = r[2] /\ buffer' = r[3]
     /\ ideal' = Over(ideal, off, data)
     /\ n' = n + 1
Flush == /\ buffer # <<>>
         /\ file' = Over(file, bufferOffset, buffer) /\ bufferOffset' = bufferOffset + Len(buffer) /\ buffer' = <<>>
         /\ UNCHANGED <<ideal, n>>
Next == (\E off \in 0..MaxSize, len \in 1..Chunk : Write(off, len)) \/ Flush
Spec == Init /\ [][Next]_vars

Get(off, len) ==
  LET inFile == IF off < bufferOffset THEN Min(len, bufferOffset - off) ELSE 0 IN
  [i \in 1..len |-> IF i <= inFile THEN (IF off + i <= Len(file) THEN file[off + i] ELSE -1)
                    ELSE IF off + i - bufferOffset \in 1..Len(buffer) THEN buffer[off + i - bufferOffset] ELSE -1]
ReadsAreRight == \A off \in 0..(Len(ideal) - 1) : \A len \in 1..(Len(ideal) - off) : Get(off, len) = SubSeq(ideal, off + 1, off + len)
SizesAgree == bufferOffset + Len(buffer) = Len(ideal) /\ Len(file) = bufferOffset
FlushedIsComplete == buffer = <<>> => file = ideal
=============================================================================
