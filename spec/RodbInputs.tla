----------------------------- MODULE RodbInputs -----------------------------
(* Inputs given by the text of their file, turned into the records RodbQuery works on.
     [kind |-> "csvtext", text, delim, header, auto, columns]
     [kind |-> "jsontext", text, names |-> code (as a string) -> one-character string]
     [kind |-> "xmldoc", props, root |-> element, sel |-> seq of [d, n, attr, val]]
   bad |-> TRUE says that reading further than the last of these records fails.
   StartOk says whether rodb must start on these inputs.                                                            *)
EXTENDS RodbQuery
Csv == INSTANCE CsvFraming
Jsn == INSTANCE JsonFraming

(* The selected elements of a document; an element inside a selected one is part of it. *)
StepOk(e, st) == /\ st.n \in {"*", e.n}
                 /\ st.attr = "" \/ (st.attr \in DOMAIN e.a /\ (st.anyval \/ e.a[st.attr] = st.val))
RECURSIVE PathIs(_, _)
PathIs(p, sts) == IF sts = <<>> THEN p = <<>>
                  ELSE IF p = <<>> THEN FALSE
                  ELSE (StepOk(Head(p), Head(sts)) /\ PathIs(Tail(p), Tail(sts))) \/ (Head(sts).d /\ PathIs(Tail(p), sts))
RECURSIVE Outermost(_, _, _)
Outermost(above, e, sts) ==
  LET here == Append(above, [n |-> e.n, a |-> e.a]) IN
  IF PathIs(here, sts) THEN <<e>>
  ELSE LET cs == SelectSeq(e.c, LAMBDA x : x.n # "#text") IN FlattenSeq([i \in 1..Len(cs) |-> Outermost(here, cs[i], sts)])

AutoOk(r) == /\ r.rows # <<>>
             /\ \A i \in 1..Len(r.rows[1]) : r.rows[1][i] # <<>> /\ \A j \in 1..(i - 1) : r.rows[1][j] # r.rows[1][i]
ResolveInput(P, inp) ==
  CASE inp.kind = "csvtext" ->
         LET r == TLCEval(Csv!CsvOf(inp.text, inp.delim))
             rows == IF inp.header /\ r.rows # <<>> THEN Tail(r.rows) ELSE r.rows
             cols == IF ~inp.auto THEN inp.columns
                     ELSE IF ~AutoOk(r) THEN <<>>
                     ELSE [i \in 1..Len(r.rows[1]) |-> [name |-> Utf(inp.names, r.rows[1][i]), parser |-> "string"]]
             json(c) == LET v == Jsn!Value(c, 1) IN
                        IF v.ok /\ Jsn!SkipWs(c, v.n) > Len(c) THEN <<"json", Jsn!Finish(v.v, inp.names)>> ELSE <<"badjson">>
             read == [i \in 1..Len(rows) |-> TLCEval([j \in 1..Len(rows[i]) |->
                        IF j <= Len(cols) /\ P[cols[j].parser].type = "jsontext" THEN TLCEval(json(rows[i][j])) ELSE rows[i][j]])]
         IN [kind |-> "csv", columns |-> cols, rows |-> TLCEval(read), bad |-> r.bad, ok |-> ~inp.auto \/ AutoOk(r)]
    [] inp.kind = "jsontext" ->
         LET r == TLCEval(Jsn!JsonOf(inp.text, inp.names)) IN [kind |-> "json", recs |-> r.recs, bad |-> r.bad]
    [] inp.kind = "xmldoc" -> [kind |-> "xml", props |-> inp.props, recs |-> Outermost(<<>>, inp.root, inp.sel)]
    [] OTHER -> inp
Resolve(W, needed) == [W EXCEPT !.inputs = TLCEval([n \in needed |-> TLCEval(ResolveInput(W.parsers, W.inputs[n]))])]
(* The inputs an answer depends on. *)
RECURSIVE Reached(_)
Reached(rels) == UNION {{rels[k].input} \cup Reached(rels[k].rels) : k \in DOMAIN rels}
Needed(W, req) == LET r == RouteOf(W, req) IN
                  IF r = 0 THEN {}
                  ELSE LET out == W.outputs[W.routes[r].output] IN {out.input} \cup Reached(out.rels)

(* An index reads every record of its input when it is created. *)
IndexReads(W, ix) ==
  LET inp == W.inputs[ix.input] IN
  /\ ~Bad(inp)
  /\ \A i \in 1..NRecs(inp) : \A j \in 1..Len(ix.props) :
       LET r == RecGet(W.parsers, inp, i, ix.props[j].path) IN
       /\ IsOk(r)
       /\ ix.kind \in {"sqlite", "fts5"} => Scalar(Val(r))
       /\ ix.kind = "map" => \A w \in Leaves(Val(r)) : Tag(w) # "o"
       /\ ix.kind = "wildcard" => \A w \in Leaves(Val(r)) : Tag(w) = "s"
StartOk(W) ==
  /\ \A n \in DOMAIN W.inputs : "ok" \in DOMAIN W.inputs[n] => W.inputs[n].ok
  /\ \A n \in DOMAIN W.indexes : W.indexes[n].kind # "noop" => IndexReads(W, W.indexes[n])
=============================================================================
