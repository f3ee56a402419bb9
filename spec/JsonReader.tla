----------------------------- MODULE JsonReader -----------------------------
(* Reading a file of concatenated objects as rodb does: one decoder scans the file through a buffer it fills by chunks,
   noting before each object where it starts; later, objects are read directly at these places by fresh decoders.
   Characters: 1 "{", 2 "}", 3 white space, 4 anything that is no JSON.
   Property: the scan delivers the objects of the file, ends with an error exactly when the file is not a sequence of
   objects, and a direct read gives the object noted.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Chunk,
          InputOffset,     \* places are counted by the decoder (broken: FALSE, the offset of the file, already read ahead)
          EndIsNoMore      \* broken: TRUE, the scan ends when nothing but a closing bracket follows
VARIABLES text, pc, pos, objs, places, answer, reads
vars == <<text, pc, pos, objs, places, answer, reads>>
MinOf(a, b) == IF a < b THEN a ELSE b
Texts == UNION {[1..n -> 1..4] : n \in 0..MaxLen}
RECURSIVE Skip(_, _)
Skip(s, i) == IF i <= Len(s) /\ s[i] = 3 THEN Skip(s, i + 1) ELSE i
(* End of the object starting at i (nested objects stand for nested values), 0 if there is none. *)
RECURSIVE ObjEnd(_, _, _)
ObjEnd(s, i, depth) == IF i > Len(s) \/ s[i] = 4 \/ (depth = 0 /\ s[i] # 1) THEN 0
                       ELSE LET d == CASE s[i] = 1 -> depth + 1 [] s[i] = 2 -> depth - 1 [] OTHER -> depth IN
                            IF d = 0 THEN i ELSE ObjEnd(s, i + 1, d)
RECURSIVE Objects(_, _)
Objects(s, i) == LET j == Skip(s, i) e == ObjEnd(s, j, 0) IN
                 IF j > Len(s) \/ e = 0 THEN <<>> ELSE <<<<j, e>>>> \o Objects(s, e + 1)
RECURSIVE WellFormed(_, _)
WellFormed(s, i) == LET j == Skip(s, i) IN j > Len(s) \/ (ObjEnd(s, j, 0) # 0 /\ WellFormed(s, ObjEnd(s, j, 0) + 1))

Init == text \in Texts /\ pc = "scan" /\ pos = 1 /\ objs = <<>> /\ places = <<>> /\ answer = <<>> /\ reads = 0
(* What the decoder has taken from the file when it stands at i: whole chunks. *)
Ahead(i) == MinOf(Len(text), ((i + Chunk - 1) \div Chunk) * Chunk) + 1
Scan == /\ pc = "scan"
        /\ LET j == Skip(text, pos)
               e == ObjEnd(text, j, 0)
           IN IF j > Len(text) \/ (EndIsNoMore /\ text[j] = 2) THEN pc' = "end" /\ UNCHANGED <<pos, objs, places>>
              ELSE IF e = 0 THEN pc' = "error" /\ UNCHANGED <<pos, objs, places>>
              ELSE /\ objs' = Append(objs, <<j, e>>) /\ pos' = e + 1 /\ UNCHANGED pc
                   /\ places' = Append(places, IF InputOffset THEN j ELSE Ahead(j))
        /\ UNCHANGED <<text, answer, reads>>
Get(i) == /\ pc \in {"end", "error"} /\ reads < 2 /\ reads' = reads + 1
          /\ LET j == Skip(text, places[i]) IN answer' = <<i, <<j, ObjEnd(text, j, 0)>>>>
          /\ UNCHANGED <<text, pc, pos, objs, places>>
Next == Scan \/ \E i \in 1..Len(places) : Get(i)
Spec == Init /\ [][Next]_vars
ScanIsFile == pc \in {"end", "error"} => objs = Objects(text, 1)
NeverTruncated == /\ pc = "end" => WellFormed(text, 1)
                  /\ pc = "error" => ~WellFormed(text, 1)
GetIsObject == answer # <<>> => answer[2] = Objects(text, 1)[answer[1]]
=============================================================================
