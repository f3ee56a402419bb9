------------------------------ MODULE RodbQuery ------------------------------
(* What rodb answers, as a function of its configuration and data files (a "world" W) and of the request:
   records of an input, the matches of an index, joins over several indexes, relationships, paging,
   single-object lookups, routes and errors.

   W.parsers : name -> parser (see RodbValues)
   W.inputs  : name -> [kind |-> "csv", columns |-> seq of [name, parser], rows |-> seq of seq of cells]
                     | [kind |-> "json", recs |-> seq of object values]
                     | [kind |-> "xml", props |-> seq of property, recs |-> seq of element]
   W.indexes : name -> [kind |-> "noop"|"map"|"sqlite"|"wildcard"|"fts5", input, props |-> seq of [key, path, collate], icase]
   W.outputs : name -> [kind |-> "array"|"object", input, params |-> name -> [key, path, index, parser],
                        ldef, lmax, lpar, opar, rels |-> name -> relationship]
   W.routes  : seq of [output, segs |-> seq of [t |-> "lit", s |-> codes] | [t |-> "par", p |-> name]]             *)
EXTENDS RodbValues

------------------------------------------------------------------------------
(* XML.  An element is [n |-> name, a |-> attribute -> codes, t |-> codes (its own text), c |-> seq of elements].
   A property is [name, type |-> "primitive"|"array"|"object", x |-> xpath, parser, items, props]; an xpath is
   [fn |-> "string"|"number"|"boolean"|"count"|"nodes", steps |-> seq of names, attr |-> name or ""].               *)
RECURSIVE Descend(_, _)
Descend(nodes, steps) ==   \* nodes: sequence of elements
  IF steps = <<>> THEN nodes
  ELSE Descend(FlattenSeq([i \in 1..Len(nodes) |-> SelectSeq(nodes[i].c, LAMBDA e : e.n = Head(steps) \/ (Head(steps) = "*" /\ e.n # "#text"))]), Tail(steps))
RECURSIVE TextOf(_)
TextOf(e) == e.t \o FlattenSeq([i \in 1..Len(e.c) |-> TextOf(e.c[i])])
Texts(e, x) ==
  LET ns == Descend(<<e>>, x.steps)
      with == SelectSeq(ns, LAMBDA m : x.attr \in DOMAIN m.a)
  IN IF x.attr = "" THEN [i \in 1..Len(ns) |-> TextOf(ns[i])] ELSE [i \in 1..Len(with) |-> with[i].a[x.attr]]
FirstText(e, x) == LET ts == Texts(e, x) IN IF ts = <<>> THEN <<>> ELSE ts[1]

LowerEq(a, b) == AsciiLower(a) = b
Trunc(m) == IF m >= 0 THEN m \div 1000 ELSE -((-m) \div 1000)
PlainFloat == [type |-> "float", sep |-> <<46>>, ignore |-> <<>>]

\* A float without what follows its decimal point.
Truncated(v) == IF Tag(v) = "f" THEN IntV(Trunc(v[2]))
                ELSE LET n == Len(v[3]) + v[4] IN
                     IF v[4] >= 0 THEN Number(v[2], v[3], v[4], "i", "I")
                     ELSE IF n <= 0 THEN IntV(0) ELSE Number(v[2], SubSeq(v[3], 1, n), 0, "i", "I")
RECURSIVE XmlValue(_, _, _)
XmlValue(P, e, prop) ==
  LET ns == Descend(<<e>>, prop.x.steps) IN
  CASE prop.type = "array" ->
         LET vs == [i \in 1..Len(ns) |-> XmlValue(P, ns[i], prop.items)] IN
         IF \A i \in 1..Len(vs) : IsOk(vs[i]) THEN Ok(Arr([i \in 1..Len(vs) |-> Val(vs[i])])) ELSE Err
    [] prop.type = "object" ->
         IF ns = <<>> THEN Ok(Nil)
         ELSE IF Len(ns) > 1 THEN Err
         ELSE LET vs == [i \in 1..Len(prop.props) |-> XmlValue(P, ns[1], prop.props[i])] IN
              IF \A i \in 1..Len(vs) : IsOk(vs[i])
              THEN Ok(Obj([k \in {prop.props[i].name : i \in 1..Len(vs)} |->
                            Val(vs[CHOOSE i \in 1..Len(vs) : prop.props[i].name = k])]))
              ELSE Err
    [] OTHER ->
         LET pt == P[prop.parser].type
             num == ParseFloat(PlainFloat, FirstText(e, prop.x))
             absent == Texts(e, prop.x) = <<>>
         IN
         CASE prop.x.fn = "string" -> Parse(P, prop.parser, FirstText(e, prop.x))
           [] prop.x.fn = "number" ->
                (* in this XPath, the number of no node at all or of a text which is no number is zero; NaN has no value *)
                LET n == IF absent \/ ~IsOk(num) THEN Ok(Flt(0)) ELSE num
                    nan == LowerEq(FirstText(e, prop.x), <<110, 97, 110>>)
                IN IF pt = "integer" THEN IF nan THEN Ok(Nil) ELSE Ok(Truncated(Val(n)))
                ELSE IF pt = "float" THEN IF nan THEN Ok(Nil) ELSE n
                ELSE Err
           [] prop.x.fn = "count" ->
                IF pt = "integer" THEN Ok(IntV(Len(Texts(e, prop.x))))
                ELSE IF pt = "float" THEN Ok(Flt(1000 * Len(Texts(e, prop.x)))) ELSE Err
           [] prop.x.fn = "boolean" ->
                IF pt = "boolean" THEN Ok(Bool(Texts(e, prop.x) # <<>>)) ELSE Err
           [] OTHER -> Err

(* The value at a path below a property: only what the path goes through is computed. *)
RECURSIVE XmlGet(_, _, _, _)
XmlGet(P, e, prop, path) ==
  IF path = <<>> THEN XmlValue(P, e, prop)
  ELSE LET ns == Descend(<<e>>, prop.x.steps)
           h == Head(path) IN
       CASE prop.type = "array" -> IF h.i = NotANumber THEN Err
                                   ELSE IF h.i < 0 \/ h.i >= Len(ns) THEN Ok(Nil)
                                   ELSE XmlGet(P, ns[h.i + 1], prop.items, Tail(path))
         [] prop.type = "object" -> IF ns = <<>> THEN Ok(Nil)
                                    ELSE IF Len(ns) > 1 THEN Err
                                    ELSE IF \A i \in 1..Len(prop.props) : prop.props[i].name # h.k THEN Ok(Nil)
                                    ELSE XmlGet(P, ns[1], prop.props[CHOOSE i \in 1..Len(prop.props) : prop.props[i].name = h.k], Tail(path))
         [] OTHER -> LET v == XmlValue(P, e, prop) IN
                     IF ~IsOk(v) \/ prop.x.fn # "string" THEN Err ELSE GetSub(Val(v), path)

------------------------------------------------------------------------------
(* Records *)
(* An input whose file is malformed after its last record: reading further fails. *)
Bad(inp) == "bad" \in DOMAIN inp /\ inp.bad
(* A record whose data has gone from the file since it was indexed. *)
Lost(inp, i) == "lost" \in DOMAIN inp /\ i \in ToSet(inp.lost)
NRecs(inp) == IF inp.kind = "csv" THEN Len(inp.rows) ELSE Len(inp.recs)

ColIndex(inp, name) == CHOOSE c \in 1..Len(inp.columns) : inp.columns[c].name = name
CsvCell(P, inp, i, c) == IF c > Len(inp.rows[i]) THEN Ok(Nil) ELSE Parse(P, inp.columns[c].parser, inp.rows[i][c])

Names(inp) ==
  CASE inp.kind = "csv" -> {inp.columns[c].name : c \in 1..Len(inp.columns)}
    [] inp.kind = "xml" -> {inp.props[c].name : c \in 1..Len(inp.props)}
    [] OTHER -> {}

TopValue(P, inp, i, name) ==   \* the value of one declared property
  CASE inp.kind = "csv" -> CsvCell(P, inp, i, ColIndex(inp, name))
    [] inp.kind = "xml" -> XmlValue(P, inp.recs[i], inp.props[CHOOSE c \in 1..Len(inp.props) : inp.props[c].name = name])

RecAll(P, inp, i) ==   \* Ok(function from names) or Err
  IF inp.kind = "json" THEN Ok(inp.recs[i][2])
  ELSE LET vs == [n \in Names(inp) |-> TopValue(P, inp, i, n)] IN
       IF \A n \in Names(inp) : IsOk(vs[n]) THEN Ok([n \in Names(inp) |-> Val(vs[n])]) ELSE Err

RecGet(P, inp, i, path) ==
  IF inp.kind = "json" THEN GetSub(inp.recs[i], path)
  ELSE IF Head(path).k \notin Names(inp) THEN Err
  ELSE IF inp.kind = "xml" THEN XmlGet(P, inp.recs[i], inp.props[CHOOSE c \in 1..Len(inp.props) : inp.props[c].name = Head(path).k], Tail(path))
  ELSE LET v == TopValue(P, inp, i, Head(path).k) IN IF IsOk(v) THEN GetSub(Val(v), Tail(path)) ELSE Err

------------------------------------------------------------------------------
(* Indexes *)
RECURSIVE Leaves(_)
Leaves(v) == IF Tag(v) = "a" THEN UNION {Leaves(v[2][j]) : j \in 1..Len(v[2])} ELSE {v}

Fold(collate, s) == CASE collate = "nocase" -> AsciiLower(s) [] collate = "rtrim" -> RTrim(s) [] OTHER -> s
SqlNum(v) == CASE Tag(v) = "b" -> <<"d", IF v[2] THEN 1000 ELSE 0>> [] OTHER -> Wire(v)
SqlEq(collate, a, b) ==
  /\ Tag(a) \in {"i", "f", "I", "F", "b", "s"} /\ Tag(b) \in {"i", "f", "I", "F", "b", "s"}
  /\ (Tag(a) = "s") = (Tag(b) = "s")
  /\ IF Tag(a) = "s" THEN Fold(collate, a[2]) = Fold(collate, b[2]) ELSE SqlNum(a) = SqlNum(b)

(* Full text: the unicode61 tokenizer (restricted to the characters the scenarios use) and the query language.
   A query is <<"t", codes>> term, <<"p", codes>> prefix, <<"ph", seq of codes>> phrase, <<"c", column, query>>,
   <<"and"|"or"|"not", q1, q2>>, or <<"bad">>.                                                                    *)
(* tok: "unicode61" (accents removed, the default), "unicode61 remove_diacritics 0", or "ascii". *)
IsTok(tok, c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ (IF tok = "ascii" THEN c >= 128 ELSE c \in (192..255) \ {215, 247} \/ c >= 19968)
NoAccent(c) == CASE c \in 224..229 -> 97 [] c \in 232..235 -> 101 [] c \in 236..239 -> 105 [] c \in 242..246 -> 111 [] c \in 249..252 -> 117 [] OTHER -> c
FoldTok(tok, c) == CASE tok = "ascii" -> IF c \in 65..90 THEN c + 32 ELSE c
                     [] tok = "unicode61" -> NoAccent(LowerCode(c))
                     [] OTHER -> LowerCode(c)
RECURSIVE Tokens(_, _, _)
Tokens(tok, s, cur) ==
  IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF IsTok(tok, Head(s)) THEN Tokens(tok, Tail(s), Append(cur, FoldTok(tok, Head(s))))
  ELSE IF cur = <<>> THEN Tokens(tok, Tail(s), <<>>) ELSE <<cur>> \o Tokens(tok, Tail(s), <<>>)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
FtsTokens(tok, v) == CASE Tag(v) = "s" -> Tokens(tok, v[2], <<>>)
                       [] Tag(v) = "i" -> <<Digits(IF v[2] < 0 THEN -v[2] ELSE v[2])>>
                       [] Tag(v) = "b" -> <<Digits(IF v[2] THEN 1 ELSE 0)>>
                       [] OTHER -> <<>>
StartsWith(t, p) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
RECURSIVE FtsHit(_, _, _)
FtsHit(tok, doc, qy) ==   \* doc: column name -> seq of tokens
  LET Fd(s) == [x \in 1..Len(s) |-> FoldTok(tok, s[x])] IN
  CASE qy[1] = "t" -> \E c \in DOMAIN doc : \E i \in 1..Len(doc[c]) : doc[c][i] = Fd(qy[2])
    [] qy[1] = "p" -> \E c \in DOMAIN doc : \E i \in 1..Len(doc[c]) : StartsWith(doc[c][i], Fd(qy[2]))
    [] qy[1] = "ph" -> \E c \in DOMAIN doc : \E i \in 1..Len(doc[c]) :
                         i + Len(qy[2]) - 1 <= Len(doc[c]) /\ \A j \in 1..Len(qy[2]) : doc[c][i + j - 1] = Fd(qy[2][j])
    [] qy[1] = "c" -> FtsHit(tok, [c \in {qy[2]} |-> doc[c]], qy[3])
    [] qy[1] = "bad" -> FALSE
    [] qy[1] = "and" -> FtsHit(tok, doc, qy[2]) /\ FtsHit(tok, doc, qy[3])
    [] qy[1] = "or"  -> FtsHit(tok, doc, qy[2]) \/ FtsHit(tok, doc, qy[3])
    [] qy[1] = "not" -> FtsHit(tok, doc, qy[2]) /\ ~FtsHit(tok, doc, qy[3])
RECURSIVE FtsBad(_)
FtsBad(qy) == CASE qy[1] = "bad" -> TRUE
                [] qy[1] \in {"and", "or", "not"} -> FtsBad(qy[2]) \/ FtsBad(qy[3])
                [] qy[1] = "c" -> FtsBad(qy[3])
                [] OTHER -> FALSE

PropOf(ix, key) == ix.props[CHOOSE j \in 1..Len(ix.props) : ix.props[j].key = key]
Handles(ix, key) == ix.kind = "noop" \/ (ix.kind = "fts5" /\ key = "match")
                    \/ (ix.kind # "fts5" /\ \E j \in 1..Len(ix.props) : ix.props[j].key = key)

Scalar(v) == Tag(v) \notin {"a", "o"}

(* One filter [key, path, v] of one index against record i: "yes", "no" or "err". *)
Hit(W, ix, inp, i, flt) ==
  IF ix.kind = "fts5"
  THEN LET doc == [k \in {ix.props[j].key : j \in 1..Len(ix.props)} |->
                     FtsTokens(ix.tok, Val(RecGet(W.parsers, inp, i, PropOf(ix, k).path)))]
       IN IF FtsHit(ix.tok, doc, flt.v[2]) THEN "yes" ELSE "no"
  ELSE LET r == RecGet(W.parsers, inp, i, flt.path) IN
       IF ~IsOk(r) THEN "err"
       ELSE LET v == Val(r) IN
            CASE ix.kind = "noop"     -> IF v = flt.v THEN "yes" ELSE "no"
              [] ix.kind = "map"      -> IF flt.v \in Leaves(v) THEN "yes" ELSE "no"
              [] ix.kind = "sqlite"   -> IF SqlEq(PropOf(ix, flt.key).collate, v, flt.v) THEN "yes" ELSE "no"
              [] ix.kind = "wildcard" ->
                   LET fold(s) == IF ix.icase THEN Lower(s) ELSE s IN
                   IF flt.v[2] # <<>> /\ \E w \in Leaves(v) : HasPart(fold(w[2]), fold(flt.v[2])) THEN "yes" ELSE "no"

(* A filter an index cannot even try: it must be answered by an error, never by "no results". *)
BadFilter(ix, flt) ==
  \/ ~Handles(ix, flt.key)
  \/ ix.kind = "wildcard" /\ Tag(flt.v) # "s"
  \/ ix.kind = "fts5" /\ FtsBad(flt.v[2])
  \/ ~Scalar(flt.v) /\ ix.kind # "fts5"

(* The records of inp matching all the filters F (a set of [index, key, path, v]), in file order. *)
MatchSet(W, inpName, F) ==
  LET inp == W.inputs[inpName] IN
  {i \in 1..NRecs(inp) : \A f \in F : Hit(W, W.indexes[f.index], inp, i, f) = "yes"}
MatchSeq(W, inpName, F) == SetToSortSeq(MatchSet(W, inpName, F), <)
MatchErr(W, inpName, F) ==
  \/ \E f \in F : BadFilter(W.indexes[f.index], f)
  \/ F = {} /\ W.indexes["default"].kind # "noop"
MayErr(W, inpName, F) ==   \* the filters of some record cannot be evaluated: an error is a legitimate answer
  LET inp == W.inputs[inpName] IN
  \E i \in 1..NRecs(inp) : \E f \in F : Hit(W, W.indexes[f.index], inp, i, f) = "err"

------------------------------------------------------------------------------
(* Records as delivered, with their relationships.  got is a wire value. *)
SortVal(W, inp, i, path) == LET r == RecGet(W.parsers, inp, i, path) IN IF IsOk(r) THEN Val(r) ELSE Nil
RECURSIVE SortLess(_, _, _, _)
SortLess(sort, a, b, j) ==   \* keys a must come strictly before keys b, from the j-th one on
  IF j > Len(sort) THEN FALSE
  ELSE LET c == Cmp(a[j], b[j])
       IN IF c \in {"eq", "err"} THEN SortLess(sort, a, b, j + 1)
          ELSE IF sort[j].asc THEN c = "lt" ELSE c = "gt"

(* A text matched through a full-text index is a query: here, words which must all be there. *)
RECURSIVE AllWords(_)
AllWords(ws) == IF Len(ws) = 1 THEN <<"t", ws[1]>> ELSE <<"and", AllWords(SubSeq(ws, 1, Len(ws) - 1)), <<"t", ws[Len(ws)]>>>>
QueryOf(v) == LET ws == SelectSeq(SplitOn(v[2], <<32>>, <<>>), LAMBDA x : x # <<>>) IN
              IF ws = <<>> \/ \E i \in 1..Len(ws) : \E j \in 1..Len(ws[i]) : ~IsTok("ascii", ws[i][j]) THEN <<"bad">> ELSE AllWords(ws)
RelFilters(W, rel, base) ==
  {[index |-> rel.match[j].index, key |-> rel.match[j].key, path |-> rel.match[j].path,
    v |-> LET v == base[rel.match[j].parent] IN IF W.indexes[rel.match[j].index].kind = "fts5" THEN <<"fts", QueryOf(v)>> ELSE v]
     : j \in 1..Len(rel.match)}

Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE RecOk(_, _, _, _, _)
RECURSIVE RelOk(_, _, _, _)
RECURSIVE RecErr(_, _, _, _)
RecOk(W, got, inpName, i, rels) ==
  LET base == Val(RecAll(W.parsers, W.inputs[inpName], i)) IN
  /\ Tag(got) = "o"
  /\ DOMAIN got[2] = DOMAIN base \cup DOMAIN rels
  /\ \A k \in DOMAIN got[2] :
       IF k \in DOMAIN rels THEN RelOk(W, got[2][k], rels[k], base) ELSE got[2][k] = Wire(base[k])
RelOk(W, got, rel, base) ==
  LET inp == W.inputs[rel.input]
      F == RelFilters(W, rel, base)
      all == MatchSeq(W, rel.input, F)
      count == IF rel.limit = 0 THEN Len(all) ELSE Min2(rel.limit, Len(all))
  IN IF ~rel.isArray
     THEN IF all = <<>> THEN got = Nil ELSE RecOk(W, got, rel.input, all[1], rel.rels)
     ELSE /\ Tag(got) = "a"
          /\ Len(got[2]) = count
          /\ IF rel.sort = <<>>
             THEN \A j \in 1..count : RecOk(W, got[2][j], rel.input, all[j], rel.rels)
             ELSE LET cand == TLCEval([j \in 1..count |-> {i \in ToSet(all) : RecOk(W, got[2][j], rel.input, i, rel.rels)}])
                      pick == TLCEval([j \in 1..count |-> CHOOSE i \in cand[j] : TRUE])   \* records are distinguishable
                      keys == TLCEval([i \in ToSet(all) |-> [k \in 1..Len(rel.sort) |-> SortVal(W, inp, i, rel.sort[k].path)]])
                      chosen == {pick[j] : j \in 1..count}
                  IN /\ \A j \in 1..count : cand[j] # {}
                     /\ Cardinality(chosen) = count
                     /\ \A j \in 1..(count - 1) : ~SortLess(rel.sort, keys[pick[j + 1]], keys[pick[j]], 1)
                     /\ count > 0 => \A i \in ToSet(all) \ chosen : ~SortLess(rel.sort, keys[i], keys[pick[count]], 1)
(* The related records cannot be known without reading their file up to its end. *)
EndNeeded(rel, all) == IF rel.isArray THEN rel.limit = 0 \/ rel.sort # <<>> \/ Len(all) < rel.limit ELSE all = <<>>
(* Delivering record i must fail. *)
RecErr(W, inpName, i, rels) ==
  LET r == RecAll(W.parsers, W.inputs[inpName], i) IN
  \/ Lost(W.inputs[inpName], i)
  \/ ~IsOk(r)
  \/ LET base == Val(r) IN
     \/ \E k \in DOMAIN base : k \notin DOMAIN rels /\ ~Encodable(base[k])
     \/ \E k \in DOMAIN rels :
          LET rel == rels[k] IN
          \/ \E j \in 1..Len(rel.match) : rel.match[j].parent \notin DOMAIN base
          \/ LET F == RelFilters(W, rel, base)
                 all == MatchSeq(W, rel.input, F)
                 count == IF rel.limit = 0 THEN Len(all) ELSE Min2(rel.limit, Len(all))
                 used == IF rel.isArray THEN (IF rel.sort = <<>> THEN 1..count ELSE 1..Len(all)) ELSE 1..Min2(1, Len(all))
             IN \/ MatchErr(W, rel.input, F)
                \/ Bad(W.inputs[rel.input]) /\ EndNeeded(rel, all)
                \/ \E j \in used : RecErr(W, rel.input, all[j], rel.rels)

(* Delivering record i may fail: the data of a related record has gone, or the file of the related records is malformed,
   though that record or the end of the file may not be needed. *)
RECURSIVE RecMayFail(_, _, _, _)
RecMayFail(W, inpName, i, rels) ==
  LET r == RecAll(W.parsers, W.inputs[inpName], i) IN
  /\ IsOk(r)
  /\ \E k \in DOMAIN rels :
       LET rel == rels[k]
           base == Val(r)
           all == MatchSeq(W, rel.input, RelFilters(W, rel, base))
       IN /\ \A j \in 1..Len(rel.match) : rel.match[j].parent \in DOMAIN base
          /\ \/ Bad(W.inputs[rel.input])
             \/ \E j \in 1..Len(all) : Lost(W.inputs[rel.input], all[j]) \/ RecMayFail(W, rel.input, all[j], rel.rels)

------------------------------------------------------------------------------
(* Outputs.  params: function from parameter names to codes.  got = [status, kind, body]. *)
PlainInt == [type |-> "integer", ignore |-> <<>>]
IsErrorResponse(got, status) == got.status = status /\ got.kind = "error"

FilterOf(W, out, n, params, fts) ==   \* Ok([index, key, path, v]) or Err
  LET p == out.params[n]
      text == IF n \in DOMAIN params THEN params[n] ELSE <<>>
      r == IF n \in DOMAIN fts THEN Ok(<<"fts", fts[n]>>)
           ELSE IF p.index \in DOMAIN W.indexes /\ W.indexes[p.index].kind = "fts5" THEN Ok(<<"fts", <<"bad">>>>) ELSE Parse(W.parsers, p.parser, ParamText(W.parsers[p.parser], text))
  IN IF IsOk(r) THEN Ok([index |-> p.index, key |-> p.key, path |-> p.path, v |-> Val(r)]) ELSE Err

Limit(out, params) ==   \* a number, or -1 for an error
  IF out.lpar \notin DOMAIN params THEN Min2(out.ldef, out.lmax)
  ELSE LET r == ParseInteger(PlainInt, params[out.lpar]) IN
       IF ~IsOk(r) THEN -1
       ELSE IF Tag(Val(r)) = "I" THEN (IF SignOf(params[out.lpar]) < 0 THEN -1 ELSE out.lmax)
       ELSE IF Val(r)[2] <= 0 THEN -1 ELSE Min2(Val(r)[2], out.lmax)
Offset(out, params, n) ==   \* a number at most n + 1, or -1 for an error
  IF out.opar \notin DOMAIN params THEN 0
  ELSE LET r == ParseInteger(PlainInt, params[out.opar]) IN
       IF ~IsOk(r) THEN -1
       ELSE IF Tag(Val(r)) = "I" THEN (IF SignOf(params[out.opar]) < 0 THEN -1 ELSE n + 1)
       ELSE IF Val(r)[2] < 0 THEN -1 ELSE Min2(Val(r)[2], n + 1)

Given(W, out, params) == IF out.kind = "object" THEN DOMAIN out.params ELSE DOMAIN out.params \cap DOMAIN params

OutputOk(W, outName, params, fts, got) ==
  LET out == W.outputs[outName]
      given == Given(W, out, params)
      fs == [n \in given |-> FilterOf(W, out, n, params, fts)]
      bad == \E n \in given : ~IsOk(fs[n])
      F == {Val(fs[n]) : n \in given}
      all == MatchSeq(W, out.input, F)
      lim == Limit(out, params)
      off == Offset(out, params, Len(all))
      last == Min2(Len(all), off + lim)
      chosen == IF out.kind = "object" THEN SubSeq(all, 1, Min2(1, Len(all))) ELSE SubSeq(all, off + 1, last)
  IN IF bad \/ (out.kind = "array" /\ (lim = -1 \/ off = -1)) THEN IsErrorResponse(got, 500)
     ELSE IF MatchErr(W, out.input, F) THEN IsErrorResponse(got, 500)
     ELSE \/ MayErr(W, out.input, F) /\ IsErrorResponse(got, 500)
          \/ /\ IsErrorResponse(got, 500)
             /\ \E n \in DOMAIN W.inputs : "lost" \in DOMAIN W.inputs[n] \/ Bad(W.inputs[n])
             /\ \E j \in 1..Len(chosen) : RecMayFail(W, out.input, chosen[j], out.rels)
          \/ IF \/ \E j \in 1..Len(chosen) : RecErr(W, out.input, chosen[j], out.rels)
                \/ Bad(W.inputs[out.input]) /\ Len(chosen) < (IF out.kind = "object" THEN 1 ELSE lim)   \* the end was needed
             THEN IsErrorResponse(got, 500)
             ELSE IF out.kind = "object" /\ chosen = <<>> THEN IsErrorResponse(got, 404)
             ELSE /\ got.status = 200 /\ got.kind = "json"
                  /\ IF out.kind = "object" THEN RecOk(W, got.body, out.input, chosen[1], out.rels)
                     ELSE /\ Tag(got.body) = "a" /\ Len(got.body[2]) = Len(chosen)
                          /\ \A j \in 1..Len(chosen) : RecOk(W, got.body[2][j], out.input, chosen[j], out.rels)

(* For a diagnosis only: the records (by number) that should have been chosen. *)
ExpectedRecords(W, outName, params, fts) ==
  LET out == W.outputs[outName]
      fs == [n \in Given(W, out, params) |-> FilterOf(W, out, n, params, fts)]
  IN IF \E n \in DOMAIN fs : ~IsOk(fs[n]) THEN <<"bad parameter">> ELSE
     LET F == {Val(fs[n]) : n \in DOMAIN fs} IN
     IF MatchErr(W, out.input, F) THEN <<"error">> ELSE MatchSeq(W, out.input, F)

------------------------------------------------------------------------------
(* Routes *)
Takings(P, p, s) ==   \* what a parameter may take from the front of s, preferred first
  IF p.type = "boolean"
  THEN SelectSeq([j \in 1..(Len(p.t) + Len(p.f)) |-> IF j <= Len(p.t) THEN p.t[j] ELSE p.f[j - Len(p.t)]], LAMBDA x : StartsWith(s, x))
  ELSE SelectSeq([j \in 1..Len(s) |-> SubSeq(s, 1, Len(s) + 1 - j)], LAMBDA x : PatternAccepts(p, x))

RECURSIVE MatchSegs(_, _, _, _)
MatchSegs(W, out, segs, s) ==
  IF segs = <<>> THEN (IF s = <<>> THEN <<"yes", <<>>>> ELSE <<"no">>)
  ELSE LET h == Head(segs) IN
       IF h.t = "lit"
       THEN IF StartsWith(s, h.s) THEN MatchSegs(W, out, Tail(segs), SubSeq(s, Len(h.s) + 1, Len(s))) ELSE <<"no">>
       ELSE LET cands == Takings(W.parsers, W.parsers[out.params[h.p].parser], s)
                good == {j \in 1..Len(cands) : MatchSegs(W, out, Tail(segs), SubSeq(s, Len(cands[j]) + 1, Len(s)))[1] = "yes"}
            IN IF good = {} THEN <<"no">>
               ELSE LET j == CHOOSE j \in good : \A k \in good : j <= k IN
                    <<"yes", <<cands[j]>> \o MatchSegs(W, out, Tail(segs), SubSeq(s, Len(cands[j]) + 1, Len(s)))[2]>>

ParNames(segs) == LET ps == SelectSeq(segs, LAMBDA x : x.t = "par") IN [j \in 1..Len(ps) |-> ps[j].p]

(* req = [method, path |-> codes, query |-> seq of [k |-> name, v |-> codes], fts |-> name -> fts query] *)
RouteOf(W, req) ==   \* number of the route serving the request, 0 if none
  LET ok == {r \in 1..Len(W.routes) : MatchSegs(W, W.outputs[W.routes[r].output], W.routes[r].segs, req.path)[1] = "yes"} IN
  IF req.method # "GET" \/ ok = {} THEN 0 ELSE CHOOSE r \in ok : \A s \in ok : r <= s

ParamsOf(W, r, req) ==   \* the first value of each query parameter; the path has the last word
  LET rt == W.routes[r]
      caps == MatchSegs(W, W.outputs[rt.output], rt.segs, req.path)[2]
      names == ParNames(rt.segs)
      qn == {req.query[j].k : j \in 1..Len(req.query)}
      fromQuery == [n \in qn |-> req.query[CHOOSE j \in 1..Len(req.query) : req.query[j].k = n
                                             /\ \A m \in 1..(j - 1) : req.query[m].k # n].v]
      fromPath == [n \in ToSet(names) |-> caps[CHOOSE j \in 1..Len(names) : names[j] = n
                                             /\ \A m \in (j + 1)..Len(names) : names[m] # n]]
  IN fromPath @@ fromQuery

ResponseOk(W, req, got) ==
  LET r == RouteOf(W, req) IN
  IF r = 0 THEN IsErrorResponse(got, 404)
  ELSE OutputOk(W, W.routes[r].output, ParamsOf(W, r, req), req.fts, got)
=============================================================================
