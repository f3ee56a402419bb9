-------------------------- MODULE ResponseProtocol --------------------------
(* How one request after the other is answered on several connections of one process, with a fault possible at any point.
   A request wants `rows` records; its fault is "none", "route" (no such route), "param" (a parameter which cannot be
   parsed), "missing" (nothing found), "load" (record number `at` cannot be read, or a relationship of it fails) or
   "encode" (record number `at` holds a value which cannot be written).  A client may go away at any time.
   Properties: what is written for a request is exactly its answer, whole, under its status (Right); and every client
   which stays gets all its answers, whatever the others do (Answered).                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Conns, MaxRequests, MaxRows,
          LoadFirst,      \* all the records are loaded before the status is written (broken: FALSE, written as they come)
          EncodeFirst,    \* the answer is encoded before the status is written (broken: FALSE)
          ErrorsReported, \* an error while loading is answered (broken: FALSE, the record is left out)
          DropOnError,    \* (broken: TRUE) an error closes the connection
          DieOnGone       \* (broken: TRUE) writing to a client which has gone ends the process
Faults == {"none", "route", "param", "missing", "load", "encode"}
Requests == {[rows |-> n, fault |-> f, at |-> a] : n \in 0..MaxRows, f \in Faults, a \in 1..MaxRows}
Sensible == {r \in Requests : /\ r.fault \in {"load", "encode"} => r.at <= r.rows
                              /\ r.fault \notin {"load", "encode"} => r.at = 1
                              /\ r.fault \in {"route", "param", "missing"} => r.rows = 0}
Whole(r) == CASE r.fault = "none" -> [status |-> 200, body |-> [i \in 1..r.rows |-> i], ended |-> TRUE]
              [] r.fault \in {"route", "missing"} -> [status |-> 404, body |-> <<0>>, ended |-> TRUE]
              [] OTHER -> [status |-> 500, body |-> <<0>>, ended |-> TRUE]

VARIABLES todo,     \* connection -> requests not yet begun
          sent,     \* connection -> requests sent at first
          cur,      \* connection -> the request being handled, or NoReq
          step,     \* connection -> where its handling is
          loaded,   \* connection -> records loaded
          wire,     \* connection -> the answers written, the last one possibly unfinished
          there,    \* connection -> the client still listens
          open, alive
vars == <<todo, sent, cur, step, loaded, wire, there, open, alive>>
NoReq == [rows |-> -1, fault |-> "none", at |-> 0]
Init == /\ sent \in [Conns -> UNION {[1..n -> Sensible] : n \in 1..MaxRequests}]
        /\ todo = sent
        /\ cur = [c \in Conns |-> NoReq] /\ step = [c \in Conns |-> "idle"] /\ loaded = [c \in Conns |-> <<>>]
        /\ wire = [c \in Conns |-> <<>>] /\ there = [c \in Conns |-> TRUE] /\ open = [c \in Conns |-> TRUE] /\ alive = TRUE
Put(c, a) == wire' = [wire EXCEPT ![c] = a]
Begun(c) == wire[c] # <<>> /\ ~wire[c][Len(wire[c])].ended
Status(c, s) == Put(c, IF Begun(c) THEN wire[c] ELSE Append(wire[c], [status |-> s, body |-> <<>>, ended |-> FALSE]))
Write(c, bs) == Put(c, [wire[c] EXCEPT ![Len(wire[c])].body = @ \o bs])

Begin(c) == /\ step[c] = "idle" /\ todo[c] # <<>>
            /\ cur' = [cur EXCEPT ![c] = Head(todo[c])]
            /\ todo' = [todo EXCEPT ![c] = Tail(todo[c])]
            /\ loaded' = [loaded EXCEPT ![c] = <<>>]
            /\ step' = [step EXCEPT ![c] = IF Head(todo[c]).fault \in {"route", "param", "missing"} THEN "fail" ELSE IF LoadFirst THEN "load" ELSE "status"]
            /\ UNCHANGED <<wire, sent, there, open, alive>>
Load(c) == /\ step[c] = "load"
           /\ LET r == cur[c]  i == Len(loaded[c]) + 1 IN
              IF i > r.rows
              THEN /\ step' = [step EXCEPT ![c] = IF ~LoadFirst THEN "end" ELSE IF EncodeFirst /\ r.fault = "encode" THEN "fail" ELSE "status"]
                   /\ UNCHANGED <<loaded, wire>>
              ELSE IF r.fault = "load" /\ i = r.at
              THEN IF ErrorsReported THEN step' = [step EXCEPT ![c] = "fail"] /\ UNCHANGED <<loaded, wire>>
                   ELSE loaded' = [loaded EXCEPT ![c] = Append(@, -i)] /\ UNCHANGED <<step, wire>>
              ELSE IF ~LoadFirst /\ r.fault = "encode" /\ i = r.at
              THEN step' = [step EXCEPT ![c] = "fail"] /\ UNCHANGED <<loaded, wire>>
              ELSE /\ loaded' = [loaded EXCEPT ![c] = Append(@, i)]
                   /\ IF LoadFirst THEN UNCHANGED wire ELSE Write(c, <<i>>)
                   /\ UNCHANGED step
           /\ UNCHANGED <<todo, sent, cur, there, open, alive>>
WriteStatus(c) == /\ step[c] = "status" /\ Status(c, 200)
                  /\ step' = [step EXCEPT ![c] = IF LoadFirst THEN "body" ELSE "load"]
                  /\ UNCHANGED <<todo, sent, cur, loaded, there, open, alive>>
Body(c) == /\ step[c] = "body"
           /\ LET r == cur[c]
                  done == Len(wire[c][Len(wire[c])].body)
                  out == SelectSeq(loaded[c], LAMBDA i : i > 0) IN
              IF done = Len(out) THEN step' = [step EXCEPT ![c] = "end"] /\ UNCHANGED <<wire, alive>>
              ELSE IF r.fault = "encode" /\ out[done + 1] = r.at THEN step' = [step EXCEPT ![c] = "fail"] /\ UNCHANGED <<wire, alive>>
              ELSE Write(c, <<out[done + 1]>>) /\ alive' = (alive /\ (there[c] \/ ~DieOnGone)) /\ UNCHANGED step
           /\ UNCHANGED <<todo, sent, cur, loaded, there, open>>
Fail(c) == /\ step[c] = "fail"
           /\ IF DropOnError THEN open' = [open EXCEPT ![c] = FALSE] /\ step' = [step EXCEPT ![c] = "closed"] /\ UNCHANGED wire
              ELSE /\ Put(c, IF Begun(c) THEN [wire[c] EXCEPT ![Len(wire[c])].body = Append(@, 0)]
                             ELSE Append(wire[c], [status |-> IF cur[c].fault \in {"route", "missing"} THEN 404 ELSE 500, body |-> <<0>>, ended |-> FALSE]))
                   /\ step' = [step EXCEPT ![c] = "end"] /\ UNCHANGED open
           /\ UNCHANGED <<todo, sent, cur, loaded, there, alive>>
End(c) == /\ step[c] = "end"
          /\ Put(c, [wire[c] EXCEPT ![Len(wire[c])].ended = TRUE])
          /\ step' = [step EXCEPT ![c] = "idle"] /\ cur' = [cur EXCEPT ![c] = NoReq]
          /\ UNCHANGED <<todo, sent, loaded, there, open, alive>>
Leave(c) == there[c] /\ there' = [there EXCEPT ![c] = FALSE] /\ UNCHANGED <<todo, sent, cur, step, loaded, wire, open, alive>>
Serve(c) == alive /\ open[c] /\ (Begin(c) \/ Load(c) \/ WriteStatus(c) \/ Body(c) \/ Fail(c) \/ End(c))
Next == \E c \in Conns : Serve(c) \/ Leave(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Conns : WF_vars(Serve(c))
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Right == \A c \in Conns : \A i \in 1..Len(wire[c]) :
           LET w == Whole(sent[c][i]) IN
           /\ wire[c][i].status = w.status
           /\ IF wire[c][i].ended THEN wire[c][i].body = w.body ELSE IsPrefix(wire[c][i].body, w.body)
Answered == \A c \in Conns : <>(~there[c] \/ (Len(wire[c]) = Len(sent[c]) /\ wire[c][Len(sent[c])].ended))
=============================================================================
