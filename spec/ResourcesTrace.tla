--------------------------- MODULE ResourcesTrace ---------------------------
(* What was observed on the real process along histories of Resources: the answers, and at the moments of idleness
   the number of descriptors of each sort.  The status of an answer is the one of its kind; the same request always
   gets the same answer; at idleness the process holds no more than when it was started (the last number: sorts it did not hold).*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Given == JsonDeserialize(IOEnv.TRACE)       \* [kinds |-> <<[status, fails]...>>, base, events]
Kinds == Given.kinds
Events == Given.events
Unknown == ""
VARIABLES i, answers, bad
Init == i = 1 /\ answers = [k \in DOMAIN Kinds |-> Unknown] /\ bad = ""
Expected(k) == Kinds[k].status
Answer(e) ==
  IF e.status = 0 THEN /\ bad' = (IF e.gaveup THEN "" ELSE "dropped") /\ UNCHANGED answers
  ELSE IF e.status # Expected(e.kind) THEN bad' = "status" /\ UNCHANGED answers
  ELSE IF answers[e.kind] = Unknown THEN bad' = "" /\ answers' = [answers EXCEPT ![e.kind] = e.digest]
  ELSE bad' = (IF answers[e.kind] = e.digest THEN "" ELSE "content") /\ UNCHANGED answers
Observe(e) == /\ UNCHANGED answers
              /\ bad' = IF \A n \in DOMAIN Given.base : e.held[n] <= Given.base[n] THEN "" ELSE "held"
Next == /\ i <= Len(Events)
        /\ i' = i + 1
        /\ IF Events[i].ev = "answer" THEN Answer(Events[i]) ELSE Observe(Events[i])
        /\ bad' # "" => PrintT(<<"BAD", i, bad'>>)
Spec == Init /\ [][Next]_<<i, answers, bad>>
Done == i <= Len(Events) + 1
=============================================================================
