------------------------------ MODULE Resources ------------------------------
(* What the requests hold while they are served, and what remains of it afterwards.
   A request is a sequence of steps, given by its kind:
     open    a search without index opens the data file          close   ... it reached the end of the file
     query   a search in a database takes one of its connections rows    ... all its rows were read
     get     a record is read (by the only reader of its input)
     fail    something fails: the request ends there             stop    the answer is complete: it ends there
   Requests overlap in any way; searches of relationships are made while the records of their parents are read, so a
   request may ask for a second connection of the same database.  Rounds of requests end by a moment of idleness, at
   which nothing may be held: this is what is observed on the real process.
   The mechanisms are constants: with FALSE (or Pool > 1) the model is refuted.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Slots,           \* requests served at the same time
          Rounds, PerRound,
          Pool,            \* connections of a database
          Eager,           \* all the rows of a query are read at once, so that its connection is released
          Early, OnFailure \* the files are also closed when their end is not reached; when something fails
Given == JsonDeserialize(IOEnv.KINDS)
Kinds == Given.kinds          \* [name, steps: <<[op, on]...>>]
Memory(db) == db \in {Given.memory[i] : i \in DOMAIN Given.memory}   \* its content only exists in its first connection
Dbs == {Given.dbs[i] : i \in DOMAIN Given.dbs}
Idle == [kind |-> 0, pc |-> 0, files |-> 0, conns |-> {}]

VARIABLES slot,     \* what each slot is doing
          left,     \* files left open by the requests which are over
          lost,     \* connections never given back
          complete, \* every query has seen the whole index
          budget,   \* requests which still start in this round
          round, hist
vars == <<slot, left, lost, complete, budget, round, hist>>
NoHistory == <<slot, left, lost, complete, budget, round>>
Init == /\ slot = [s \in 1..Slots |-> Idle] /\ left = 0 /\ lost = {} /\ complete = TRUE
        /\ budget \in 1..PerRound /\ round = 1 /\ hist = <<>>

Steps(k) == Kinds[k].steps
At(s) == Steps(slot[s].kind)[slot[s].pc]
Taken == lost \cup UNION {slot[s].conns : s \in 1..Slots}
Start(s, k) == /\ slot[s] = Idle /\ budget > 0
               /\ slot' = [slot EXCEPT ![s] = [Idle EXCEPT !.kind = k, !.pc = 1]]
               /\ budget' = budget - 1
               /\ hist' = Append(hist, <<"start", s, k>>)
               /\ UNCHANGED <<left, lost, complete, round>>
Go(s, files, conns) == slot' = [slot EXCEPT ![s] = [@ EXCEPT !.pc = @ + 1, !.files = files, !.conns = conns]]
                       /\ UNCHANGED <<left, lost, budget, round, hist>>
End(s, released) == /\ slot' = [slot EXCEPT ![s] = Idle]
                    /\ left' = left + (IF released THEN 0 ELSE slot[s].files)
                    /\ lost' = lost \cup (IF released THEN {} ELSE slot[s].conns)
                    /\ hist' = Append(hist, <<"end", s, slot[s].kind>>)
                    /\ UNCHANGED <<complete, budget, round>>
Do(s) ==
  /\ slot[s] # Idle
  /\ LET op == At(s).op db == At(s).on IN
     CASE op = "open" -> Go(s, slot[s].files + 1, slot[s].conns) /\ UNCHANGED complete
       [] op = "close" -> Go(s, slot[s].files - 1, slot[s].conns) /\ UNCHANGED complete
       [] op = "query" -> \E c \in 1..Pool :
                            /\ <<db, c>> \notin Taken
                            /\ complete' = (complete /\ (c = 1 \/ ~Memory(db)))
                            /\ Go(s, slot[s].files, IF Eager THEN slot[s].conns ELSE slot[s].conns \cup {<<db, c>>})
       [] op = "rows" -> Go(s, slot[s].files, {x \in slot[s].conns : x[1] # db}) /\ UNCHANGED complete
       [] op = "get" -> Go(s, slot[s].files, slot[s].conns) /\ UNCHANGED complete
       [] op = "fail" -> End(s, OnFailure)
       [] op = "stop" -> End(s, Early)
AllIdle == \A s \in 1..Slots : slot[s] = Idle
Settle == /\ AllIdle /\ budget = 0 /\ round < Rounds
          /\ round' = round + 1 /\ budget' \in 1..PerRound
          /\ hist' = Append(hist, <<"idle", 0, 0>>)
          /\ UNCHANGED <<slot, left, lost, complete>>
Over == /\ AllIdle /\ budget = 0 /\ round = Rounds
        /\ hist = <<>> \/ hist[Len(hist)][1] # "over"
        /\ hist' = Append(hist, <<"over", 0, 0>>)
        /\ PrintT(<<"HISTORY", ToJson(hist')>>)
        /\ UNCHANGED <<slot, left, lost, complete, budget, round>>
Rest == AllIdle /\ budget = 0 /\ round = Rounds /\ UNCHANGED vars
Next == (\E s \in 1..Slots : Do(s) \/ \E k \in DOMAIN Kinds : Start(s, k)) \/ Settle \/ Over \/ Rest
Spec == Init /\ [][Next]_vars
(* A deadlock is a request waiting for ever, which TLC reports by itself. *)
Content == complete
Clean == AllIdle => left = 0 /\ lost = {}
OneEach == Eager => \A s \in 1..Slots : slot[s].conns = {}
=============================================================================
