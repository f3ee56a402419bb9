----------------------------- MODULE RouteCases ------------------------------
(* Matching a path with a route of literals and parameters, by trying the longest text first and coming back (what the
   service's pattern does), against the declarative meaning: some cutting of the whole path gives each literal its own
   text and each parameter a text of its form.  Both the route and the path grow step by step.                        *)
EXTENDS RodbQuery
CONSTANTS Alphabet, MaxSegs, MaxPath,
          Backtrack,   \* a shorter text is tried when the rest does not match (broken: FALSE)
          WholePath,   \* the end of the path must be reached (broken: FALSE)
          QuoteLit     \* a dot in a literal is a dot (broken: FALSE, it is any character)
VARIABLES segs, path
vars == <<segs, path>>
Par(n) == [t |-> "par", p |-> n]
Lit(s) == [t |-> "lit", s |-> s]
Out == [params |-> [s |-> [parser |-> "string"], i |-> [parser |-> "integer"], b |-> [parser |-> "bool"]]]
W == [parsers |-> [string |-> [type |-> "string"], integer |-> [type |-> "integer", ignore |-> <<>>],
                   bool |-> [type |-> "boolean", t |-> <<<<49>>>>, f |-> <<<<49, 46>>>>]]]
Segs == {Par("s"), Par("i"), Par("b"), Lit(<<46>>), Lit(<<49>>)}
Init == segs = <<>> /\ path = <<>>
Next == \/ Len(segs) < MaxSegs /\ \E x \in Segs : segs' = Append(segs, x) /\ UNCHANGED path
        \/ Len(segs) = MaxSegs /\ Len(path) < MaxPath /\ \E c \in Alphabet : path' = Append(path, c) /\ UNCHANGED segs
Spec == Init /\ [][Next]_vars

Accepts(x, t) == IF x.t = "lit" THEN t = x.s ELSE PatternAccepts(W.parsers[Out.params[x.p].parser], t)
Cuts == {f \in [1..(Len(segs) + 1) -> 0..Len(path)] : f[1] = 0 /\ f[Len(segs) + 1] = Len(path) /\ \A i \in 1..Len(segs) : f[i] <= f[i + 1]}
Piece(f, i) == SubSeq(path, f[i] + 1, f[i + 1])
Means == {f \in Cuts : \A i \in 1..Len(segs) : Accepts(segs[i], Piece(f, i))}

(* The matcher, with what may be wrong in it. *)
LitAt(s, l) == Len(s) >= Len(l) /\ \A i \in 1..Len(l) : s[i] = l[i] \/ (~QuoteLit /\ l[i] = 46)
RECURSIVE M(_, _)
M(sg, s) ==
  IF sg = <<>> THEN (IF s = <<>> \/ ~WholePath THEN <<"yes", <<>>>> ELSE <<"no">>)
  ELSE LET h == Head(sg) IN
       IF h.t = "lit" THEN IF LitAt(s, h.s) THEN M(Tail(sg), SubSeq(s, Len(h.s) + 1, Len(s))) ELSE <<"no">>
       ELSE LET cands == Takings(W.parsers, W.parsers[Out.params[h.p].parser], s)
                try == IF Backtrack THEN 1..Len(cands) ELSE {1} \cap (1..Len(cands))
                good == {j \in try : M(Tail(sg), SubSeq(s, Len(cands[j]) + 1, Len(s)))[1] = "yes"}
            IN IF good = {} THEN <<"no">>
               ELSE LET j == CHOOSE j \in good : \A k \in good : j <= k IN <<"yes", <<cands[j]>> \o M(Tail(sg), SubSeq(s, Len(cands[j]) + 1, Len(s)))[2]>>
Got == M(segs, path)
Ready == Len(segs) = MaxSegs
MatchesWhatItMeans == Ready => (Got[1] = "yes") = (Means # {})
IsTheSpecifiedMatch == Ready => Got = MatchSegs(W, Out, segs, path)
(* The captured texts are those of one cutting: the one giving most to the first parameter, then to the second... *)
Pars == {i \in 1..Len(segs) : segs[i].t = "par"}
CapturesOfACut == (Ready /\ Got[1] = "yes" /\ WholePath) => \E f \in Means : [i \in 1..Len(Got[2]) |-> Got[2][i]] = [i \in 1..Cardinality(Pars) |-> Piece(f, SetToSortSeq(Pars, <)[i])]
=============================================================================
