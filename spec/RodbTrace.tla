------------------------------ MODULE RodbTrace ------------------------------
(* Validates a recorded history of running rodb processes against RodbQuery.  Lines of the trace:
     [ev |-> "world", w |-> W]                         a configuration and its files
     [ev |-> "start", id |-> n, wl |-> line of its world, up |-> BOOLEAN]    a process was started on it, and serves or not
     [ev |-> "req", id |-> n, wl |-> line of its world, req |-> ..., got |-> [status, kind, body]]
     [ev |-> "same", id |-> n, gots |-> sequence of answers given to one same request]
   RodbQuery makes every response a function of the world and of the request alone, whatever came before or
   runs at the same time, so each recorded request is a behaviour of its own (one initial state, one step) and
   TLC's workers share them.  A response the specification does not allow is reported (MISMATCH id expected).    *)
EXTENDS RodbInputs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
ReqLines == {i \in 1..Len(Trace) : Trace[i].ev \in {"req", "start", "same"}}
VARIABLES l, pc

Init == l \in ReqLines /\ pc = "sent"

Explain(W, req) ==
  LET r == RouteOf(W, req) IN
  IF r = 0 THEN <<"no route">> ELSE ExpectedRecords(W, W.routes[r].output, ParamsOf(W, r, req), req.fts)

(* The answer to a request is a function of the request (the text of an error may tell one of several errors). *)
SameAnswers(gots) == \A i \in 1..Len(gots) : gots[i].status = gots[1].status /\ gots[i].kind = gots[1].kind /\ gots[i].body = gots[1].body

(* Evaluated inside the action: that is where TLC computes a LET only once. *)
Answer == LET e == Trace[l]
              W0 == Trace[e.wl].w
              W == Resolve(W0, IF e.ev = "start" THEN DOMAIN W0.inputs ELSE Needed(W0, e.req))
              allowed == CASE e.ev = "start" -> e.up = StartOk(W)
                           [] e.ev = "same"  -> SameAnswers(e.gots)
                           [] OTHER          -> ResponseOk(W, e.req, e.got)
          IN
  /\ pc = "sent"
  /\ IF allowed THEN pc' = "answered"
     ELSE pc' = "refused" /\ PrintT(<<"MISMATCH", e.id, IF e.ev # "req" THEN e.ev ELSE ToString(Explain(W, e.req))>>)
  /\ UNCHANGED l

Spec == Init /\ [][Answer]_<<l, pc>>
AllChecked == TLCGet("stats").distinct = 2 * Cardinality(ReqLines)
=============================================================================
