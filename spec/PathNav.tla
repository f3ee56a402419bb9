------------------------------ MODULE PathNav ------------------------------
(* Following a dotted path into a value, one name or index at a time.
   A value is <<"n">> null, <<"s", x>> a scalar, <<"o", function>> or <<"a", sequence>>; a step is [k, i]: its name, and
   its index or NotANumber.
   Property: whatever the value and the path, the walk ends and its outcome is the one of a definition which does not
   walk: the values a value contains, each with its path.  Continuing from an intermediate value is the same as going
   there in one go, so a path means the same in every place that uses it.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth, MaxPath, MaxArray,
          NullStops,     \* a null on the way gives null (broken: FALSE, an error)
          BoundsChecked  \* indexes below zero are checked too (broken: FALSE, taken from the end)
NotANumber == -999
Steps == {[k |-> "a", i |-> NotANumber], [k |-> "b", i |-> NotANumber], [k |-> "0", i |-> 0], [k |-> "1", i |-> 1], [k |-> "-1", i |-> -1]}
Scalars == {<<"n">>, <<"s", 1>>, <<"s", 2>>}
RECURSIVE Values(_)
Values(d) == IF d = 0 THEN Scalars
             ELSE LET V == Values(d - 1) IN
                  Scalars \cup {<<"o", f>> : f \in UNION {[K -> V] : K \in {{}, {"a"}, {"0"}, {"a", "b"}}}}
                          \cup {<<"a", q>> : q \in UNION {[1..n -> V] : n \in 0..MaxArray}}
RECURSIVE Paths(_)
Paths(n) == IF n = 0 THEN {<<>>} ELSE LET P == Paths(n - 1) IN P \cup {Append(p, s) : p \in P, s \in Steps}

VARIABLES value, path, cur, at, pc
vars == <<value, path, cur, at, pc>>
Init == value \in Values(Depth) /\ path \in Paths(MaxPath) /\ cur = value /\ at = 0 /\ pc = "walk"
Tag(v) == v[1]
Go(v) == cur' = v /\ at' = at + 1 /\ UNCHANGED pc
Stop(how) == pc' = how /\ UNCHANGED <<cur, at>>
Walk ==
  /\ pc = "walk" /\ UNCHANGED <<value, path>>
  /\ IF at = Len(path) THEN Stop("found")
     ELSE LET s == path[at + 1] IN
          CASE Tag(cur) = "n" -> Stop(IF NullStops THEN "null" ELSE "error")
            [] Tag(cur) = "s" -> Stop("error")
            [] Tag(cur) = "o" -> IF s.k \in DOMAIN cur[2] THEN Go(cur[2][s.k]) ELSE Stop("null")
            [] OTHER -> IF s.i = NotANumber THEN Stop("error")
                        ELSE IF s.i >= 0 /\ s.i < Len(cur[2]) THEN Go(cur[2][s.i + 1])
                        ELSE IF BoundsChecked \/ s.i >= 0 \/ Len(cur[2]) < -s.i THEN Stop("null")
                        ELSE Go(cur[2][Len(cur[2]) + 1 + s.i])
Spec == Init /\ [][Walk]_vars /\ WF_vars(Walk)

(* Everything a value contains, by path. *)
Name(n) == IF n = 0 THEN "0" ELSE "1"
RECURSIVE Contents(_)
Contents(v) ==
  {<<<<>>, v>>} \cup
  CASE Tag(v) = "o" -> UNION {{<<<<k>> \o c[1], c[2]>> : c \in Contents(v[2][k])} : k \in DOMAIN v[2]}
    [] Tag(v) = "a" -> UNION {{<<<<Name(n - 1)>> \o c[1], c[2]>> : c \in Contents(v[2][n])} : n \in 1..Len(v[2])}
    [] OTHER -> {}
Keys(p) == [i \in 1..Len(p) |-> p[i].k]
Outcome(v, p) ==   \* <<"found", value>>, <<"null">> or <<"error">>
  LET C == Contents(v)
      known == {c[1] : c \in C}
      n == CHOOSE n \in 0..Len(p) : Keys(SubSeq(p, 1, n)) \in known /\ \A m \in (n + 1)..Len(p) : Keys(SubSeq(p, 1, m)) \notin known
      w == (CHOOSE c \in C : c[1] = Keys(SubSeq(p, 1, n)))[2]
  IN IF n = Len(p) THEN <<"found", w>>
     ELSE IF Tag(w) = "s" \/ (Tag(w) = "a" /\ p[n + 1].i = NotANumber) THEN <<"error">>
     ELSE <<"null">>
WalkIsOutcome == pc # "walk" => Outcome(value, path) = IF pc = "found" THEN <<"found", cur>> ELSE <<pc>>
Resumable == pc = "walk" => Outcome(value, path) = Outcome(cur, SubSeq(path, at + 1, Len(path)))
Ends == <>(pc # "walk")
=============================================================================
