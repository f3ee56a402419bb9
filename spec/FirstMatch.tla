----------------------------- MODULE FirstMatch -----------------------------
(* An object output: its parameters are parsed one by one in any order, each to a value or to a failure, then the
   records are walked until one matches all the values.
   Property: the answer does not depend on the order of the parameters; it is the first match, the absence of a match
   only if there is none, and an error exactly when a parameter has no value.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Params, Values, MaxRecords,
          BadIsError,   \* a text that cannot be parsed is an error (broken: FALSE, the parameter is ignored)
          AllParams     \* a parameter which is not given is matched too (broken: FALSE, it is ignored)
Bad == "bad"
Missing == "missing"
VARIABLES recs, given, todo, filters, pc, cur, answer
vars == <<recs, given, todo, filters, pc, cur, answer>>
RECURSIVE Seqs(_)
Seqs(k) == IF k = 0 THEN {<<>>} ELSE LET A == Seqs(k - 1) IN A \cup {Append(a, r) : a \in A, r \in [Params -> Values]}
Empty == CHOOSE v \in Values : TRUE   \* what a missing parameter is parsed to
Init == /\ recs \in Seqs(MaxRecords) /\ given \in [Params -> Values \cup {Bad, Missing}]
        /\ todo = Params /\ filters = {} /\ pc = "parse" /\ cur = 1 /\ answer = 0
ParseOne == /\ pc = "parse"
            /\ \E p \in todo :
                 IF given[p] = Bad /\ BadIsError THEN pc' = "error" /\ UNCHANGED <<todo, filters>>
                 ELSE /\ todo' = todo \ {p} /\ UNCHANGED pc
                      /\ filters' = IF given[p] = Bad \/ (given[p] = Missing /\ ~AllParams) THEN filters
                                    ELSE filters \cup {<<p, IF given[p] = Missing THEN Empty ELSE given[p]>>}
            /\ UNCHANGED <<recs, given, cur, answer>>
Parsed == pc = "parse" /\ todo = {} /\ pc' = "walk" /\ UNCHANGED <<recs, given, todo, filters, cur, answer>>
Walk == /\ pc = "walk"
        /\ IF cur > Len(recs) THEN pc' = "absent" /\ UNCHANGED <<cur, answer>>
           ELSE IF \A f \in filters : recs[cur][f[1]] = f[2] THEN pc' = "found" /\ answer' = cur /\ UNCHANGED cur
           ELSE cur' = cur + 1 /\ UNCHANGED <<pc, answer>>
        /\ UNCHANGED <<recs, given, todo, filters>>
Next == ParseOne \/ Parsed \/ Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Value(p) == IF given[p] = Missing THEN Empty ELSE given[p]
Match(i) == \A p \in Params : recs[i][p] = Value(p)
Faulty == \E p \in Params : given[p] = Bad
First == pc = "found" => ~Faulty /\ Match(answer) /\ \A i \in 1..(answer - 1) : ~Match(i)
Absent == pc = "absent" => ~Faulty /\ \A i \in 1..Len(recs) : ~Match(i)
ErrorIsDue == pc = "error" => Faulty
Answers == <>(pc \in {"found", "absent", "error"})
=============================================================================
