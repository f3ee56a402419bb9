------------------------------ MODULE SharedDb ------------------------------
(* Several sqlite and full-text indexes in one database file, over several starts with different configurations.
   Names of tables and of SQL indexes are one space, without distinction of case; a metadata table is looked for with
   the exact case.  An index makes: its metadata table, its table, and (sqlite) one SQL index for each property.
   Building stops the start at the first failure; what was done before stays.
   Properties: an index in use reads a table which is its own (OwnTable), with all its rows; a configuration whose
   names do not collide with anything there is accepted (NotTooStrict).
   Each start of each different database is printed with a shortest history.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxStarts, MaxTogether, Universe,    \* which of the indexes below exist
          ByIndex,       \* table names contain the name of the index (broken: FALSE, one table for all)
          FailIfExists,  \* making a table which exists is an error (broken: FALSE, it is kept and filled)
          QualifySql     \* names of SQL indexes contain the name of the index (else they collide more often; not a wrong answer)
(* name with its exact case, without case; properties (exact, without case) *)
Ix(n) == CASE n = 1 -> [name |-> "a", low |-> "a", kind |-> "q", props |-> <<"x", "y_z">>, input |-> 1]
           [] n = 2 -> [name |-> "A", low |-> "a", kind |-> "q", props |-> <<"x">>, input |-> 2]
           [] n = 3 -> [name |-> "a_y", low |-> "a_y", kind |-> "q", props |-> <<"z">>, input |-> 1]
           [] n = 4 -> [name |-> "b", low |-> "b", kind |-> "f", props |-> <<"x", "z">>, input |-> 1]
           [] n = 5 -> [name |-> "B", low |-> "b", kind |-> "f", props |-> <<"z">>, input |-> 2]
           [] n = 6 -> [name |-> "c", low |-> "c", kind |-> "q", props |-> <<"x", "z">>, input |-> 2]
           [] n = 7 -> [name |-> "a_index", low |-> "a_index", kind |-> "q", props |-> <<"x">>, input |-> 2]
           [] n = 8 -> [name |-> "b_index", low |-> "b_index", kind |-> "f", props |-> <<"x">>, input |-> 2]
VARIABLES things, meta, result, hist
vars == <<things, meta, result, hist>>
view == <<things, meta, result>>
(* things: name without case -> [owner, full, cased] ; meta: name without case of a metadata table -> [cased, owner, done] *)
MetaOf(x) == "rodb_" \o x.low \o "_metadata"
TableOf(x) == IF ByIndex THEN "rodb_" \o x.low \o "_index" ELSE "rodb_index"
SqlIndexes(x) == IF x.kind # "q" THEN {} ELSE {"index_" \o (IF QualifySql THEN x.low \o "_" ELSE "") \o x.props[i] : i \in 1..Len(x.props)}
Shadows(x) == IF x.kind # "f" THEN {} ELSE {TableOf(x) \o s : s \in {"_data", "_idx", "_content", "_docsize", "_config"}}
Put(f, k, v) == (k :> v) @@ f

Build(n, th, me) ==
  LET x == Ix(n)
      me1 == Put(me, MetaOf(x), [cased |-> IF MetaOf(x) \in DOMAIN me THEN me[MetaOf(x)].cased ELSE x.name, owner |-> n, done |-> FALSE])
      taken == DOMAIN th \cup DOMAIN me1
      th1 == IF TableOf(x) \in taken THEN th ELSE [k \in Shadows(x) \cup {TableOf(x)} |-> n] @@ th
      bad == (TableOf(x) \in taken /\ FailIfExists)
      RECURSIVE Sql(_, _)
      Sql(i, t) == IF i > Cardinality(SqlIndexes(x)) THEN [ok |-> TRUE, t |-> t]
                   ELSE LET k == "index_" \o (IF QualifySql THEN x.low \o "_" ELSE "") \o x.props[i] IN
                        IF k \in DOMAIN t \/ k \in DOMAIN me1 THEN [ok |-> ~FailIfExists, t |-> t]
                        ELSE Sql(i + 1, Put(t, k, n))
      s == Sql(1, th1)
  IN IF bad THEN [ok |-> FALSE, th |-> th, me |-> me1]
     ELSE IF ~s.ok THEN [ok |-> FALSE, th |-> s.t, me |-> me1]
     ELSE [ok |-> TRUE, th |-> s.t, me |-> [me1 EXCEPT ![MetaOf(x)].done = TRUE]]
Has(n, me) == MetaOf(Ix(n)) \in DOMAIN me /\ me[MetaOf(Ix(n))].cased = Ix(n).name
RECURSIVE Go(_, _, _)
Go(cfg, th, me) ==
  IF cfg = <<>> THEN [up |-> TRUE, th |-> th, me |-> me]
  ELSE LET n == Head(cfg) IN
       IF Has(n, me) THEN IF me[MetaOf(Ix(n))].done /\ Ix(me[MetaOf(Ix(n))].owner).input = Ix(n).input THEN Go(Tail(cfg), th, me) ELSE [up |-> FALSE, th |-> th, me |-> me]
       ELSE LET b == Build(n, th, me) IN IF b.ok THEN Go(Tail(cfg), b.th, b.me) ELSE [up |-> FALSE, th |-> b.th, me |-> b.me]

Configs == {p \in UNION {[1..k -> Universe] : k \in 1..MaxTogether} : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
NoResult == [cfg |-> <<>>, up |-> FALSE, before |-> {}]
Init == things = ("" :> 0) /\ meta = ("" :> [cased |-> "", owner |-> 0, done |-> FALSE]) /\ result = NoResult /\ hist = <<>>
Start == /\ Len(hist) < MaxStarts
         /\ \E cfg \in Configs :
              LET r == Go(cfg, things, meta)
                  h == Append(hist, [cfg |-> cfg, up |-> r.up])
              IN /\ things' = r.th /\ meta' = r.me
                 /\ result' = [cfg |-> cfg, up |-> r.up, before |-> DOMAIN things \cup DOMAIN meta]
                 /\ hist' = h
                 /\ PrintT(<<"BEHAVIOUR", ToJson(h)>>)
Next == Start
Spec == Init /\ [][Next]_vars
Used == IF result.up THEN {result.cfg[i] : i \in 1..Len(result.cfg)} ELSE {}
OwnTable == \A n \in Used : TableOf(Ix(n)) \in DOMAIN things /\ things[TableOf(Ix(n))] = n /\ meta[MetaOf(Ix(n))].done
Made(x) == {MetaOf(x), TableOf(x)} \cup SqlIndexes(x) \cup Shadows(x)
NotTooStrict ==
  result.cfg # <<>> /\ (\A i \in 1..Len(result.cfg) : Made(Ix(result.cfg[i])) \cap result.before = {})
  /\ (\A i, j \in 1..Len(result.cfg) : i # j => Made(Ix(result.cfg[i])) \cap Made(Ix(result.cfg[j])) = {})
  => result.up
=============================================================================
