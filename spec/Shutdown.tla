------------------------------ MODULE Shutdown ------------------------------
(* One process with one or more listeners, and the end of it after an interrupt.
   The environment opens connections, sends requests (in two parts or at once), lets the handling of each one finish,
   and interrupts once.  A connection is "new" (nothing received), "part" (part of a request received), "held" (its
   request is being handled), "idle" (kept open after an answer) or "closed".
   Properties: no request which was being handled at the interrupt, or before it, is lost (Kept); the listeners close
   whatever the requests being handled do (Closes: no fairness of Finish is assumed); when nothing is being handled
   any more the process ends by itself with success (Ends).
   With History, the different histories of the environment are printed; must |-> the request has to be answered.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Conns, Listeners, MaxSends, History,
          NotifyFirst,   \* interrupts are caught before the first connection is accepted
          WaitHandlers,  \* the process waits for the requests being handled, not only for the listeners
          Together       \* the listeners are closed without waiting for one another
VARIABLES ph, at, must, sends, listening, closing, notified, sig, status, lost, hist
vars == <<ph, at, must, sends, listening, closing, notified, sig, status, lost, hist>>
Init == /\ ph = [c \in Conns |-> "none"] /\ at = [c \in Conns |-> 0] /\ must = [c \in Conns |-> FALSE] /\ sends = [c \in Conns |-> 0]
        /\ listening = [l \in Listeners |-> TRUE] /\ closing = [l \in Listeners |-> "no"]
        /\ notified = NotifyFirst /\ sig = "no" /\ status = "running" /\ lost = {} /\ hist = <<>>
Running == status = "running"
Note(e) == hist' = IF History THEN Append(hist, e) ELSE hist

Open(c, l) == /\ Running /\ ph[c] = "none" /\ \A d \in Conns : d < c => ph[d] # "none"   \* connections are numbered as they come
              /\ IF listening[l] THEN ph' = [ph EXCEPT ![c] = "new"] ELSE ph' = [ph EXCEPT ![c] = "closed"]
              /\ at' = [at EXCEPT ![c] = l]
              /\ Note([a |-> "open", c |-> c, l |-> l, must |-> FALSE])
              /\ UNCHANGED <<must, sends, listening, closing, notified, sig, status, lost>>
Part(c) == /\ Running /\ ph[c] \in {"new", "idle"} /\ sends[c] < MaxSends /\ ph' = [ph EXCEPT ![c] = "part"]
           /\ Note([a |-> "part", c |-> c, l |-> 0, must |-> FALSE])
           /\ UNCHANGED <<at, must, sends, listening, closing, notified, sig, status, lost>>
Send(c) == /\ Running /\ ph[c] \in {"new", "part", "idle"} /\ sends[c] < MaxSends
           /\ sends' = [sends EXCEPT ![c] = @ + 1]
           /\ must' = [must EXCEPT ![c] = sig = "no"]
           (* once the listener is closed, a request which arrives may find its connection closed *)
           /\ \E p \in IF closing[at[c]] = "no" THEN {"held"} ELSE {"held", "closed"} : ph' = [ph EXCEPT ![c] = p]
           /\ Note([a |-> "send", c |-> c, l |-> 0, must |-> sig = "no"])
           /\ UNCHANGED <<at, listening, closing, notified, sig, status, lost>>
Finish(c) == /\ Running /\ ph[c] = "held"
             /\ ph' = [ph EXCEPT ![c] = IF closing[at[c]] = "no" THEN "idle" ELSE "closed"]
             /\ Note([a |-> "finish", c |-> c, l |-> 0, must |-> must[c]])
             /\ UNCHANGED <<at, must, sends, listening, closing, notified, sig, status, lost>>
Leave(c) == /\ Running /\ ph[c] \in {"new", "part", "idle"} /\ ph' = [ph EXCEPT ![c] = "closed"]
            /\ Note([a |-> "leave", c |-> c, l |-> 0, must |-> FALSE])
            /\ UNCHANGED <<at, must, sends, listening, closing, notified, sig, status, lost>>
Stop(s) == /\ status' = s
           /\ lost' = {c \in Conns : ph[c] = "held" /\ must[c]}
           /\ ph' = [c \in Conns |-> IF ph[c] = "none" THEN "none" ELSE "closed"]
           /\ listening' = [l \in Listeners |-> FALSE]
Signal == /\ Running /\ sig = "no" /\ sig' = "sent"
          /\ IF notified THEN UNCHANGED <<status, lost, ph, listening>> ELSE Stop("killed")
          /\ Note([a |-> "signal", c |-> 0, l |-> 0, must |-> FALSE])
          /\ UNCHANGED <<at, must, sends, closing, notified>>
Notify == ~notified /\ Running /\ notified' = TRUE /\ UNCHANGED <<ph, at, must, sends, listening, closing, sig, status, lost, hist>>
Take == Running /\ notified /\ sig = "sent" /\ sig' = "taken" /\ UNCHANGED <<ph, at, must, sends, listening, closing, notified, status, lost, hist>>
CloseListener(l) == /\ Running /\ sig = "taken" /\ closing[l] = "no"
                    /\ Together \/ \A k \in Listeners : k < l => closing[k] = "done"
                    /\ closing' = [closing EXCEPT ![l] = "draining"] /\ listening' = [listening EXCEPT ![l] = FALSE]
                    /\ UNCHANGED <<ph, at, must, sends, notified, sig, status, lost, hist>>
CloseConn(c) == /\ Running /\ ph[c] \in {"new", "part", "idle"} /\ closing[at[c]] = "draining"   \* at once or after a delay
                /\ ph' = [ph EXCEPT ![c] = "closed"]
                /\ UNCHANGED <<at, must, sends, listening, closing, notified, sig, status, lost, hist>>
Drained(l) == /\ Running /\ closing[l] = "draining" /\ \A c \in Conns : at[c] = l => ph[c] \in {"none", "closed"}
              /\ closing' = [closing EXCEPT ![l] = "done"]
              /\ UNCHANGED <<ph, at, must, sends, listening, notified, sig, status, lost, hist>>
Exit == /\ Running /\ \A l \in Listeners : closing[l] \in (IF WaitHandlers THEN {"done"} ELSE {"draining", "done"})
        /\ Stop("ended") /\ UNCHANGED <<at, must, sends, closing, notified, sig, hist>>
Inner == Notify \/ Take \/ Exit \/ (\E l \in Listeners : CloseListener(l) \/ Drained(l)) \/ (\E c \in Conns : CloseConn(c))
Env == Signal \/ \E c \in Conns : (\E l \in Listeners : Open(c, l)) \/ Part(c) \/ Send(c) \/ Finish(c) \/ Leave(c)
(* A history ends with the process: all of them finish what is held. *)
Printed == History /\ ~Running /\ hist # <<>> /\ PrintT(<<"BEHAVIOUR", ToJson(hist)>>) /\ UNCHANGED vars
Next == Inner \/ Env \/ Printed
Fair == WF_vars(Notify) /\ WF_vars(Take) /\ WF_vars(Exit) /\ \A l \in Listeners : WF_vars(CloseListener(l)) /\ WF_vars(Drained(l))
Spec == Init /\ [][Next]_vars /\ Fair /\ \A c \in Conns : WF_vars(CloseConn(c))
Kept == lost = {}
Success == status # "killed"
Closes == (sig = "taken") ~> (\A l \in Listeners : ~listening[l])
Ends == (<>[](\A c \in Conns : ph[c] # "held") /\ <>(sig # "no")) => <>(status = "ended")
=============================================================================
