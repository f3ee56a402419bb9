----------------------------- MODULE IndexBuild -----------------------------
(* Exact-match lookups: an in-memory table built by one pass over the records, against a scan of the records.
   A record holds a value of the property: a scalar, null, or an array of scalars (looked into by the table, not by
   the scan).  Requests are answered only once the table is complete.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Scalars, MaxRecords, MaxArray,
          Distinct   \* the values of an array are added once each (broken: FALSE)
Nil == "null"
RECURSIVE Arrays(_)
Arrays(k) == IF k = 0 THEN {<<>>} ELSE LET A == Arrays(k - 1) IN A \cup {Append(a, s) : a \in A, s \in Scalars \cup {Nil}}
Values == {[s |-> v] : v \in Scalars \cup {Nil}} \cup {[a |-> v] : v \in Arrays(MaxArray)}
IsArr(v) == "a" \in DOMAIN v
Leaves(v) == IF IsArr(v) THEN {v.a[i] : i \in 1..Len(v.a)} ELSE {v.s}
LeafList(v) == IF IsArr(v) THEN v.a ELSE <<v.s>>

VARIABLES data, cur, table, phase, pending
vars == <<data, cur, table, phase, pending>>
RECURSIVE Seqs(_)
Seqs(k) == IF k = 0 THEN {<<>>} ELSE LET A == Seqs(k - 1) IN A \cup {Append(a, v) : a \in A, v \in Values}

Init == /\ data \in Seqs(MaxRecords) /\ cur = 1 /\ pending = <<>>
        /\ table = [v \in Scalars \cup {Nil} |-> <<>>] /\ phase = "building"
Read == /\ phase = "building" /\ pending = <<>> /\ cur <= Len(data)
        /\ IF Distinct
           THEN \E p \in {q \in [1..Cardinality(Leaves(data[cur])) -> Leaves(data[cur])] :   \* in any order: a hash table
                            \A i, j \in DOMAIN q : i # j => q[i] # q[j]} : pending' = p \o <<"done">>
           ELSE pending' = LeafList(data[cur]) \o <<"done">>
        /\ UNCHANGED <<data, cur, table, phase>>
Add == /\ phase = "building" /\ pending # <<>>
       /\ IF Head(pending) = "done" THEN cur' = cur + 1 /\ UNCHANGED table
          ELSE table' = [table EXCEPT ![Head(pending)] = Append(@, cur)] /\ UNCHANGED cur
       /\ pending' = Tail(pending)
       /\ UNCHANGED <<data, phase>>
Finish == phase = "building" /\ pending = <<>> /\ cur > Len(data) /\ phase' = "serving" /\ UNCHANGED <<data, cur, table, pending>>
Next == Read \/ Add \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Scan(v) == SelectSeq([i \in 1..Len(data) |-> i], LAMBDA i : v \in Leaves(data[i]))
TableIsScan == phase = "serving" => \A v \in Scalars \cup {Nil} : table[v] = Scan(v)
Sorted == \A v \in DOMAIN table : \A i \in 1..(Len(table[v]) - 1) : table[v][i] < table[v][i + 1]
EventuallyServes == <>(phase = "serving")
=============================================================================
