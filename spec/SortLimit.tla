------------------------------ MODULE SortLimit ------------------------------
(* The sort and the limit of an array relationship: the matching records are collected in file order, sorted by any
   sequence of exchanges of neighbours in the wrong order, then cut.
   Property: the result has no inversion, holds the right number of distinct matching records, no record left out comes
   before one kept, and missing values are the lowest.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Levels, MaxRecords, Keys,
          SortFirst,     \* the sort comes before the limit (broken: FALSE)
          NullIsLowest,  \* null compares as the lowest (broken: FALSE: null is equal to anything, no order at all)
          Lexicographic  \* the next key only decides between equals (broken: FALSE: the last key decides)
Null == 0
RecVals == [1..Keys -> {Null} \cup 1..Levels]
RECURSIVE Seqs(_)
Seqs(k) == IF k = 0 THEN {<<>>} ELSE LET A == Seqs(k - 1) IN A \cup {Append(a, v) : a \in A, v \in RecVals}
VARIABLES recs, asc, limit, list, pc
vars == <<recs, asc, limit, list, pc>>
Init == /\ recs \in Seqs(MaxRecords) /\ asc \in [1..Keys -> BOOLEAN] /\ limit \in 0..(MaxRecords + 1)
        /\ list = [i \in 1..Len(recs) |-> i] /\ pc = IF SortFirst THEN "sort" ELSE "cut"
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Before(_, _, _)
Before(a, b, k) ==   \* record a strictly before b
  IF k > Keys THEN FALSE
  ELSE LET x == recs[a][k] y == recs[b][k] up == asc[k] IN
       IF x = y THEN Before(a, b, k + 1) ELSE IF up THEN x < y ELSE x > y
CodeLess(a, b) ==
  IF ~Lexicographic THEN (IF asc[Keys] THEN recs[a][Keys] < recs[b][Keys] ELSE recs[a][Keys] > recs[b][Keys])
  ELSE IF NullIsLowest THEN Before(a, b, 1)
  ELSE \E k \in 1..Keys : /\ recs[a][k] # Null /\ recs[b][k] # Null
                          /\ (IF asc[k] THEN recs[a][k] < recs[b][k] ELSE recs[a][k] > recs[b][k])
                          /\ \A j \in 1..(k - 1) : recs[a][j] = recs[b][j] \/ recs[a][j] = Null \/ recs[b][j] = Null
Swap == /\ pc = "sort"
        /\ \E i \in 1..(Len(list) - 1) : /\ CodeLess(list[i + 1], list[i])
                                         /\ list' = [list EXCEPT ![i] = list[i + 1], ![i + 1] = list[i]]
        /\ UNCHANGED <<recs, asc, limit, pc>>
Sorted == /\ pc = "sort" /\ \A i \in 1..(Len(list) - 1) : ~CodeLess(list[i + 1], list[i])
          /\ pc' = (IF SortFirst THEN "cut" ELSE "done") /\ UNCHANGED <<recs, asc, limit, list>>
Cut == /\ pc = "cut"
       /\ list' = IF limit = 0 THEN list ELSE SubSeq(list, 1, Min(limit, Len(list)))
       /\ pc' = (IF SortFirst THEN "done" ELSE "sort") /\ UNCHANGED <<recs, asc, limit>>
Next == Swap \/ Sorted \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Kept == {list[i] : i \in 1..Len(list)}
Right == pc = "done" =>
  /\ Len(list) = (IF limit = 0 THEN Len(recs) ELSE Min(limit, Len(recs))) /\ Cardinality(Kept) = Len(list)
  /\ \A i, j \in 1..Len(list) : i < j => ~Before(list[j], list[i], 1)
  /\ \A i \in 1..Len(list), o \in (1..Len(recs)) \ Kept : ~Before(o, list[i], 1)
  /\ \A i, j \in 1..Len(list) : (i < j /\ asc[1] /\ recs[list[j]][1] = Null) => recs[list[i]][1] = Null
Ends == <>(pc = "done")
=============================================================================
