------------------------------ MODULE FullText ------------------------------
(* The full-text index as an inverted index built record by record: term -> seq of <<record, column, place>>.
   Queries are answered from the postings by merging sets of records.
   Property: this equals evaluating the query on every record (RodbQuery!FtsHit), for every query up to a depth. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Terms, MaxRecords, MaxWords, Columns, Depth,
          Adjacent,   \* phrases need consecutive places (broken: FALSE)
          SameColumn  \* ... of the same column (broken: FALSE)

RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE LET T == Words(n - 1) IN T \cup {Append(t, a) : t \in T, a \in Terms}
Docs == [Columns -> Words(MaxWords)]
RECURSIVE Queries(_)
Queries(d) ==
  IF d = 0 THEN {<<"t", x>> : x \in Terms} \cup {<<"ph", <<x, y>>>> : x, y \in Terms}
  ELSE LET Q == Queries(d - 1) IN
       Q \cup {<<"c", k, q>> : k \in Columns, q \in Queries(0)} \cup {<<o, a, b>> : o \in {"and", "or", "not"}, a \in Q, b \in Q}

VARIABLES docs, postings
vars == <<docs, postings>>
Init == docs = <<>> /\ postings = [t \in Terms |-> {}]
Insert(d) == /\ Len(docs) < MaxRecords
             /\ docs' = Append(docs, d)
             /\ postings' = [t \in Terms |-> postings[t] \cup
                  UNION {{<<Len(docs) + 1, c, i>> : i \in {j \in 1..Len(d[c]) : d[c][j] = t}} : c \in Columns}]
Next == \E d \in Docs : Insert(d)
Spec == Init /\ [][Next]_vars

Recs(P) == {p[1] : p \in P}
RECURSIVE Answer(_, _)
Answer(cols, q) ==
  CASE q[1] = "t" -> Recs({p \in postings[q[2]] : p[2] \in cols})
    [] q[1] = "ph" -> {p[1] : p \in {x \in postings[q[2][1]] : x[2] \in cols /\ \E y \in postings[q[2][2]] :
                         /\ y[1] = x[1] /\ y[2] \in cols
                         /\ SameColumn => y[2] = x[2]
                         /\ Adjacent => y[3] = x[3] + 1}}
    [] q[1] = "c" -> Answer(cols \cap {q[2]}, q[3])
    [] q[1] = "and" -> Answer(cols, q[2]) \cap Answer(cols, q[3])
    [] q[1] = "or" -> Answer(cols, q[2]) \cup Answer(cols, q[3])
    [] q[1] = "not" -> Answer(cols, q[2]) \ Answer(cols, q[3])
RECURSIVE Hit(_, _, _)
Hit(d, cols, q) ==
  CASE q[1] = "t" -> \E c \in cols : \E i \in 1..Len(d[c]) : d[c][i] = q[2]
    [] q[1] = "ph" -> \E c \in cols : \E i \in 1..(Len(d[c]) - 1) : SubSeq(d[c], i, i + 1) = q[2]
    [] q[1] = "c" -> Hit(d, cols \cap {q[2]}, q[3])
    [] q[1] = "and" -> Hit(d, cols, q[2]) /\ Hit(d, cols, q[3])
    [] q[1] = "or" -> Hit(d, cols, q[2]) \/ Hit(d, cols, q[3])
    [] q[1] = "not" -> Hit(d, cols, q[2]) /\ ~Hit(d, cols, q[3])
AllQueries == Queries(Depth)
IndexIsScan == \A q \in AllQueries : Answer(Columns, q) = {i \in 1..Len(docs) : Hit(docs[i], Columns, q)}
=============================================================================
