------------------------------ MODULE Relations ------------------------------
(* The relationships of a record, loaded one by one in any order (a hash table is walked), each of them adding or
   replacing one property of the delivered record, possibly named like a property of the record; the children have
   relationships of their own (one more level here), whose children are delivered as they are.
   Property: the delivered record is a function of the data, whatever the order; a relationship on a property the
   record does not have is an error, in any order.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Props, Values, RelNames, MaxChildren,
          MatchBase,     \* matches are read in the record itself (broken: FALSE, in what has been built so far)
          MissingIsError \* (broken: FALSE, nothing matches)
Parents == Props \cup {"nowhere"}
VARIABLES base, rels, children, todo, built, pc
vars == <<base, rels, children, todo, built, pc>>
RECURSIVE Seqs(_)
Seqs(k) == IF k = 0 THEN {<<>>} ELSE LET A == Seqs(k - 1) IN A \cup {Append(a, v) : a \in A, v \in Values}
(* rels: name -> [parent, many, nested]; nested: the parent property of the relationship of the children, or "none" *)
RelDefs == [parent : Parents, many : BOOLEAN, nested : {"none", "v", "nowhere"}]
Init == /\ base \in [Props -> Values] /\ rels \in UNION {[S -> RelDefs] : S \in SUBSET RelNames}
        /\ children \in Seqs(MaxChildren)
        /\ todo = DOMAIN rels /\ built = [p \in Props |-> <<"value", base[p]>>] /\ pc = "loading"
Matching(v) == SelectSeq([i \in 1..Len(children) |-> i], LAMBDA i : children[i] = v)
(* A child is delivered with its number and the numbers of its own children. *)
Child(i, nested) == IF nested = "none" THEN <<i>> ELSE <<i, Matching(children[i])>>
NestedFails(r, found) == r.nested = "nowhere" /\ MissingIsError /\ found # <<>>
Value(r, found) == IF r.many THEN <<"list", [k \in 1..Len(found) |-> Child(found[k], r.nested)]>>
                   ELSE IF found = <<>> THEN <<"null">> ELSE <<"one", Child(found[1], r.nested)>>
Source(p) == IF MatchBase THEN (IF p \in Props THEN <<"value", base[p]>> ELSE <<"none">>)
             ELSE IF p \in DOMAIN built THEN built[p] ELSE <<"none">>
Load(n) == LET r == rels[n]
               src == Source(r.parent)
               found == IF src[1] = "value" THEN Matching(src[2]) ELSE <<>>
           IN /\ pc = "loading" /\ n \in todo
              /\ IF (src[1] = "none" /\ MissingIsError) \/ NestedFails(r, found)
                 THEN pc' = "error" /\ UNCHANGED <<todo, built>>
                 ELSE /\ built' = (n :> Value(r, found)) @@ built
                      /\ todo' = todo \ {n} /\ UNCHANGED pc
              /\ UNCHANGED <<base, rels, children>>
Done == pc = "loading" /\ todo = {} /\ pc' = "delivered" /\ UNCHANGED <<base, rels, children, todo, built>>
Next == (\E n \in RelNames : Load(n)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Expected(n) == LET r == rels[n] IN Value(r, Matching(base[r.parent]))
Faulty(n) == rels[n].parent \notin Props \/ (rels[n].nested = "nowhere" /\ Matching(base[rels[n].parent]) # <<>>)
Delivered == pc = "delivered" =>
  /\ \A n \in DOMAIN rels : ~Faulty(n) /\ built[n] = Expected(n)
  /\ \A p \in Props \ DOMAIN rels : built[p] = <<"value", base[p]>>
  /\ DOMAIN built = Props \cup DOMAIN rels
ErrorIsDue == pc = "error" => \E n \in DOMAIN rels : Faulty(n)
Ends == <>(pc # "loading")
=============================================================================
