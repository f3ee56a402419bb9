------------------------------- MODULE Watcher -------------------------------
(* The surveillance of the input files by a running process.
   Two inputs, read from the names 1 and 2; the other names are 3 (in the same directory) and 4 (in another one).
   A name designates a file (an inode) or nothing; a file has a version, raised by every change of its content.
   An input has changed when its name no longer designates, or has not designated at some time since the start, the
   very file which was loaded, or when the content of this file changed, under whatever name this was done.
   The process watches the loaded files themselves and the directory of the inputs, and is told of
     <<"write", n>>   the content of the watched file, or of the name n in the directory, changed
     <<"entry", n>>   the name n of the directory was created, removed, or renamed
     <<"other", n>>   anything else (attributes)
   The events wait in queues of a limited length: when the process cannot run for a while, and many other files are used
   meanwhile, the queues are full, and it is only told of
     <<"lost", i>>    events have been lost
   in which case it must look at the inputs by itself. It cannot see then what was undone in between: an input which is
   changed and restored meanwhile has not changed.
   Properties: a change of an input which stops the process is followed by its end (Stops); nothing else stops it (Only).
   With History, the histories of operations are printed, with what the process has to do after the last one.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, History,
          WatchFile, WatchDir,  \* what is watched
          ByName,               \* the events about other names are ignored
          Entries,              \* entry events count as changes
          ByFlag,               \* the option is obeyed
          Rescan,               \* the inputs are looked at when events have been lost
          Others                \* events which are not changes count as well
VARIABLES ino, ver, die, changed, queue, full, status, ops, hist
vars == <<ino, ver, die, changed, queue, full, status, ops, hist>>
Names == 1..4
Inputs == {1, 2}
Local == {1, 2, 3}
Fresh == 1 + CHOOSE m \in 0..20 : (\A n \in Names : ino[n] <= m) /\ (\A i \in DOMAIN ver : ver[i] > 0 => i <= m) /\ (m = 0 \/ ver[m] > 0)
Loaded(i) == i      \* the file loaded for an input: its inode at the start
Init == /\ \E two \in {1, 2} : ino = [n \in Names |-> CASE n = 1 -> 1 [] n = 2 -> 2 [] n = 3 -> 3 [] OTHER -> IF two = 1 THEN 1 ELSE 4]   \* name 4 may be a hard link of the first input
        /\ ver = [i \in 1..(5 + MaxOps) |-> IF i <= 4 THEN 1 ELSE 0]
        /\ die \in [Inputs -> BOOLEAN] /\ changed = [i \in Inputs |-> FALSE]
        /\ queue = [i \in Inputs |-> {}] /\ full = FALSE /\ status = "running"
        /\ ops = 0 /\ hist = [link |-> ino[4] = 1, die |-> die, ops |-> <<>>]
Running == status = "running"
(* The events an operation raises for the input i: what its file watch and its directory watch report. *)
(* The queue is a set: neither the order nor the number of equal events makes a difference. *)
Events(i, filecause, dircauses) ==
  (IF WatchFile /\ filecause # "" THEN {<<filecause, i>>} ELSE {})
  \cup (IF WatchDir THEN {e \in dircauses : e[2] \in Local} ELSE {})
Note(e) == hist' = IF History THEN [hist EXCEPT !.ops = Append(@, e)] ELSE hist
(* after: ino and ver after the operation;  filecause(i), dircauses: see above *)
Do(e, ino2, ver2, filecause(_), dircauses) ==
  /\ Running /\ ops < MaxOps /\ ops' = ops + 1
  /\ ino' = ino2 /\ ver' = ver2
  /\ changed' = [i \in Inputs |-> changed[i] \/ (~full /\ (ino2[i] # Loaded(i) \/ ver2[Loaded(i)] # 1))]
  /\ queue' = [i \in Inputs |-> queue[i] \cup IF full THEN {} ELSE Events(i, filecause(i), dircauses)]
  /\ Note(e @@ [stop |-> \E i \in Inputs : die[i] /\ changed'[i]])
  /\ UNCHANGED <<die, status, full>>
No(i) == ""
(* rewriting, extending, truncating... through a name *)
Write(n) == ino[n] # 0 /\ ver[ino[n]] < 2
            /\ Do([op |-> "write", n |-> n, m |-> 0], ino, [ver EXCEPT ![ino[n]] = @ + 1], LAMBDA i : IF ino[n] = Loaded(i) THEN "write" ELSE "", {<<"write", n>>})
(* reading it, opening it for writing without writing, changing its times or rights *)
Touch(n) == ino[n] # 0 /\ ~full /\ Do([op |-> "touch", n |-> n, m |-> 0], ino, ver, LAMBDA i : IF ino[n] = Loaded(i) THEN "other" ELSE "", {<<"other", n>>})
Create(n) == ino[n] = 0 /\ Fresh <= 4 + MaxOps
             /\ Do([op |-> "create", n |-> n, m |-> 0], [ino EXCEPT ![n] = Fresh], [ver EXCEPT ![Fresh] = 1], No, {<<"entry", n>>})
Unlink(n) == ino[n] # 0
             /\ Do([op |-> "unlink", n |-> n, m |-> 0], [ino EXCEPT ![n] = 0], ver, LAMBDA i : IF ino[n] = Loaded(i) THEN "other" ELSE "", {<<"entry", n>>})
(* Moving another name of a loaded file is also reported as a move of this file: not specified, left out. *)
Rename(n, m) == /\ n # m /\ ino[n] # 0 /\ ino[n] # ino[m] /\ \A i \in Inputs : ino[n] = Loaded(i) => n = i
                /\ Do([op |-> "rename", n |-> n, m |-> m], [ino EXCEPT ![m] = ino[n], ![n] = 0], ver, LAMBDA i : IF ino[n] = Loaded(i) THEN "entry" ELSE "", {<<"entry", n>>, <<"entry", m>>})
Link(n, m) == /\ ino[n] # 0 /\ ino[m] = 0
              /\ Do([op |-> "link", n |-> n, m |-> m], [ino EXCEPT ![m] = ino[n]], ver, LAMBDA i : IF ino[n] = Loaded(i) THEN "other" ELSE "", {<<"entry", m>>})
(* The process cannot run and the queues get full; then it runs again. *)
Flood == /\ Running /\ ~full /\ ops < MaxOps /\ ops' = ops + 1 /\ full' = TRUE
         /\ queue' = [i \in Inputs |-> queue[i] \cup {<<"lost", i>>}]
         /\ Note([op |-> "flood", n |-> 0, m |-> 0, stop |-> FALSE])
         /\ UNCHANGED <<ino, ver, die, changed, status>>
Differs(i) == ino[i] # Loaded(i) \/ ver[Loaded(i)] # 1
Resume == /\ Running /\ full /\ full' = FALSE
          /\ changed' = [i \in Inputs |-> changed[i] \/ Differs(i)]
          /\ Note([op |-> "resume", n |-> 0, m |-> 0, stop |-> \E i \in Inputs : die[i] /\ changed'[i]])
          /\ UNCHANGED <<ino, ver, die, queue, status, ops>>
(* Something which was not a request at all: answering, any number of times. *)
Serve == ~full /\ Do([op |-> "serve", n |-> 0, m |-> 0], ino, ver, No, {})
Counts(i, e) == IF e[1] = "lost" THEN Rescan /\ Differs(i) ELSE
                /\ e[1] = "write" \/ (Entries /\ e[1] = "entry") \/ Others
                /\ ByName => e[2] = i
Take(i, e) == /\ Running /\ ~full /\ e \in queue[i]
              /\ queue' = [queue EXCEPT ![i] = @ \ {e}]
              /\ status' = IF Counts(i, e) /\ (die[i] \/ ~ByFlag) THEN "stopped" ELSE status
              /\ UNCHANGED <<ino, ver, die, changed, full, ops, hist>>
AllEvents == {"write", "entry", "other", "lost"} \X Local
Env == Serve \/ Flood \/ \E n \in Names : Write(n) \/ Touch(n) \/ Create(n) \/ Unlink(n) \/ \E m \in Names : Rename(n, m) \/ Link(n, m)
(* A history ends at the first operation which stops the process, or when nothing more happens. *)
Printed == /\ History /\ hist.ops # <<>> /\ ~full
           /\ (\A i \in Inputs : queue[i] = {}) /\ (status = "stopped" \/ ops = MaxOps)
           /\ PrintT(<<"BEHAVIOUR", ToJson(hist)>>) /\ UNCHANGED vars
Settled == \A i \in Inputs : queue[i] = {}
Next == \/ (History => Settled \/ full) /\ Env 
        \/ Resume     \* the histories: one operation at a time
        \/ \E i \in Inputs, e \in AllEvents : Take(i, e)
        \/ Printed
Spec == Init /\ [][Next]_vars /\ \A i \in Inputs, e \in AllEvents : WF_vars(Take(i, e)) /\ WF_vars(Resume)
Bound == \A i \in DOMAIN ver : ver[i] <= 2
Must == \E i \in Inputs : die[i] /\ changed[i]
Only == status = "stopped" => Must
Quiet == (Running /\ Settled /\ ~full) => ~Must      \* nothing has been missed: the safety form of Stops
Stops == Must ~> status = "stopped"
=============================================================================
