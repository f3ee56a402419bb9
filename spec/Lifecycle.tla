----------------------------- MODULE Lifecycle -----------------------------
(* Persisted indexes over the life of an installation: starts, changes of the input file, of the configuration and of
   the stored indexes in between.  A start goes through the configured indexes in order: an index which is not stored
   is built from the file, a stored one is reused if what it recorded agrees with the file and the configuration, and
   else the process refuses to start (the indexes before it in the configuration may have been built).
   The file is a content and a modification time (in seconds); its size is a function of the content.  The contents of
   one same size and one same time are one content (the assumption under which a file can be recognised at all).
   Properties: whatever happened before, a process which serves only uses indexes built from the very content the file
   has now, for the settings it has now (Serves); a start on stored indexes which all belong to the file and settings is
   accepted (NotTooStrict); a start leaves the stored indexes as they are (Untouched).
   Each start from each different state is printed with a shortest history leading to it: these are replayed.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps, Times,
          Order,      \* the indexes, in the order of the configuration: "w"ildcard, s"q"lite, "f"ull-text
          Changes,    \* which kinds of steps may happen between the starts
          CheckSize, CheckTime,       \* CheckTime: "equal", "newer" (broken: only a later time is refused) or "no"
          CheckDone, CheckFormat, CheckSettings,
          Rebuild                     \* broken: a stored index which does not agree is silently taken over
Contents == 1..3
SizeOf(c) == IF c = 3 THEN 2 ELSE 1
Slots == CASE Order = "w" -> <<"w">> [] Order = "q" -> <<"q">> [] Order = "f" -> <<"f">>
           [] Order = "wqf" -> <<"w", "q", "f">> [] Order = "fqw" -> <<"f", "q", "w">> [] Order = "qfw" -> <<"q", "f", "w">>
SlotSet == {Slots[i] : i \in 1..Len(Slots)}
Settings == [icase : BOOLEAN, props : {1, 2}]     \* of the wildcard index, the only one to record some
VARIABLES file, conf, store, seen, result, hist
vars == <<file, conf, store, seen, result, hist>>
view == <<file, conf, store, seen, result>>

None == [c |-> 0]
Built(s, f, cf) == [c |-> f.c, size |-> SizeOf(f.c), t |-> f.t, icase |-> cf.icase, props |-> cf.props, version |-> TRUE, magic |-> TRUE, done |-> TRUE, readable |-> TRUE]
Agrees(s, x, f, cf) ==
  /\ x.readable
  /\ CheckFormat => x.version /\ x.magic
  /\ CheckTime = "equal" => x.t = f.t
  /\ CheckTime = "newer" => f.t <= x.t
  /\ CheckSize => x.size = SizeOf(f.c)
  /\ CheckDone => x.done
  /\ CheckSettings /\ s = "w" => x.icase = cf.icase /\ x.props = cf.props
(* going through the slots from the i-th *)
RECURSIVE Go(_, _, _, _)
Go(i, st, f, cf) ==
  IF i > Len(Slots) THEN [up |-> TRUE, st |-> st, used |-> st]
  ELSE LET s == Slots[i] IN
       IF st[s] = None THEN Go(i + 1, [st EXCEPT ![s] = Built(s, f, cf)], f, cf)
       ELSE IF Agrees(s, st[s], f, cf) THEN Go(i + 1, st, f, cf)
       ELSE IF Rebuild THEN Go(i + 1, [st EXCEPT ![s].t = f.t, ![s].size = SizeOf(f.c)], f, cf)
       ELSE [up |-> FALSE, st |-> st]

NoResult == [kind |-> "none"]
Init == /\ file = [c |-> 1, t |-> 2] /\ conf = [icase |-> FALSE, props |-> 2]
        /\ store = [s \in SlotSet |-> None] /\ seen = {<<1, 2, 1>>} /\ result = NoResult /\ hist = <<>>
Room == Len(hist) < MaxSteps
Log(x) == hist' = Append(hist, x)

Start ==
  LET r == Go(1, store, file, conf) IN
  /\ Room
  /\ store' = r.st /\ result' = [kind |-> "start", up |-> r.up, before |-> store]
  /\ Log([a |-> "start", up |-> r.up, kept |-> {s \in SlotSet : store[s] # None}])
  /\ PrintT(<<"BEHAVIOUR", ToJson(Append(hist, [a |-> "start", up |-> r.up, kept |-> {s \in SlotSet : store[s] # None}]))>>)
  /\ UNCHANGED <<file, conf, seen>>
(* the content, or its modification time, or both change: forwards or backwards, or back to what they were *)
Edit == /\ Room /\ "edit" \in Changes
        /\ \E c \in Contents, t \in Times :
             /\ <<c, t>> # <<file.c, file.t>>
             /\ \A x \in seen : x[1] = SizeOf(c) /\ x[2] = t => x[3] = c
             /\ file' = [c |-> c, t |-> t] /\ seen' = seen \cup {<<SizeOf(c), t, c>>}
             /\ Log([a |-> "edit", c |-> c, t |-> t])
        /\ result' = NoResult /\ UNCHANGED <<conf, store>>
Configure == /\ Room /\ "config" \in Changes
             /\ \E cf \in Settings : cf # conf /\ conf' = cf /\ Log([a |-> "config", icase |-> cf.icase, props |-> cf.props])
             /\ result' = NoResult /\ UNCHANGED <<file, store, seen>>
Tamper == /\ Room /\ "tamper" \in Changes
          /\ \E s \in SlotSet, x \in {"version", "magic", "done", "readable"} :
               /\ store[s] # None /\ store[s][x] /\ (x = "magic" => s = "w")
               /\ store' = [store EXCEPT ![s][x] = FALSE] /\ Log([a |-> "tamper", slot |-> s, field |-> x])
          /\ result' = NoResult /\ UNCHANGED <<file, conf, seen>>
Remove == /\ Room /\ "remove" \in Changes
          /\ \E s \in SlotSet : store[s] # None /\ store' = [store EXCEPT ![s] = None] /\ Log([a |-> "remove", slot |-> s])
          /\ result' = NoResult /\ UNCHANGED <<file, conf, seen>>
Next == Start \/ Edit \/ Configure \/ Tamper \/ Remove
Spec == Init /\ [][Next]_vars

IsUp == result.kind = "start" /\ result.up
Serves == IsUp => \A s \in SlotSet :
            /\ store[s] # None /\ store[s].c = file.c /\ store[s].done /\ store[s].version /\ store[s].magic /\ store[s].readable
            /\ s = "w" => store[s].icase = conf.icase /\ store[s].props = conf.props
Fits(s, x) == x = None \/ x = Built(s, file, IF s = "w" THEN conf ELSE [icase |-> x.icase, props |-> x.props])
NotTooStrict == result.kind = "start" /\ (\A s \in SlotSet : Fits(s, result.before[s])) => result.up
Untouched == result.kind = "start" => \A s \in SlotSet : result.before[s] # None => store[s] = result.before[s]
=============================================================================
