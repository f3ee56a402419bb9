----------------------------- MODULE ConfigRules -----------------------------
(* What a configuration has to be, as a predicate on the document itself, and its normal form (the omitted optional
   settings replaced by their documented defaults).
   The state is a document; a transition is one edit of it, from a finite alphabet: a setting, a name, a reference, an
   object of a list... is replaced, removed or added.  TLC enumerates every document reachable by MaxEdits edits from a
   valid one, and prints for each one its edits, whether it must be accepted, and whether its normal form is still the
   one of the first document (then it must also behave the same).
   Documents: <<"m", [key |-> doc]>>, <<"l", <<doc...>>>>, <<"s", text>>, <<"u", 0..>>, <<"i", negative>>, <<"b", bool>>, <<"z">> (null).
   The facts about texts of other languages and about files are tables given with the document (Facts).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxEdits,
          References, Duplicates, Cycles, Suitable   \* variants without one of the rules
Given == JsonDeserialize(IOEnv.CONFIG)     \* [base, edits, facts]
Base == Given.base
Edits == Given.edits
Facts == Given.facts
Null == <<"z">>

(* ---- reading documents ---- *)
IsMap(d) == d[1] = "m"
IsList(d) == d[1] = "l"
Keys(d) == DOMAIN d[2]
Has(d, k) == IsMap(d) /\ k \in Keys(d) /\ d[2][k][1] # "z"
Get(d, k) == IF Has(d, k) THEN d[2][k] ELSE Null
Text(d, k) == IF Has(d, k) THEN d[2][k][2] ELSE ""
Num(d, k) == IF Has(d, k) THEN d[2][k][2] ELSE 0
Flag(d, k, default) == IF Has(d, k) THEN d[2][k][2] ELSE default
Items(d, k) == IF Has(d, k) THEN d[2][k][2] ELSE <<>>
Members(d, k) == IF Has(d, k) THEN d[2][k][2] ELSE [x \in {} |-> Null]
In(x, set) == \E i \in DOMAIN set : set[i] = x      \* tables are given as sequences
NamesOf(list) == [i \in DOMAIN list |-> Text(list[i], "name")]
Distinct(seq) == ~Duplicates \/ \A i, j \in DOMAIN seq : i # j => seq[i] # seq[j]

(* ---- shapes: every setting known, with a value of its kind; an entry of a list or of a map is never empty ---- *)
Column == [name |-> <<"str">>, parser |-> <<"str">>]
XmlProp == [name |-> <<"str">>, type |-> <<"str">>, parser |-> <<"str">>, xpath |-> <<"str">>, items |-> <<"obj", "xmlprop">>, properties |-> <<"list", <<"obj", "xmlprop">>>>]
Param == [property |-> <<"str">>, index |-> <<"str">>, parser |-> <<"str">>]
Rel == [input |-> <<"str">>, isArray |-> <<"bool">>, limit |-> <<"uint">>, sort |-> <<"list", <<"obj", "sort">>>>, match |-> <<"list", <<"obj", "match">>>>, relationships |-> <<"map", <<"obj", "rel">>>>]
Out == [name |-> <<"str">>, type |-> <<"str">>, input |-> <<"str">>, parameters |-> <<"map", <<"obj", "param">>>>, relationships |-> <<"map", <<"obj", "rel">>>>]
Named == [name |-> <<"str">>, type |-> <<"str">>]
Filed == Named @@ [path |-> <<"str">>, dieOnInputChange |-> <<"bool">>]
Listed == Named @@ [input |-> <<"str">>, properties |-> <<"list", <<"str">>>>]
Shape(s) ==
  CASE s = "string" -> Named @@ [convertFromCharset |-> <<"str">>]
    [] s = "integer" -> Named @@ [ignoreCharacters |-> <<"str">>]
    [] s = "float" -> Named @@ [ignoreCharacters |-> <<"str">>, decimalSeparator |-> <<"str">>]
    [] s = "boolean" -> Named @@ [trueValues |-> <<"list", <<"str">>>>, falseValues |-> <<"list", <<"str">>>>]
    [] s = "json" -> Named
    [] s = "split" -> Named @@ [delimiter |-> <<"str">>, delimiterIsRegexp |-> <<"bool">>, parser |-> <<"str">>]
    [] s = "csv" -> Filed @@ [ignoreFirstRow |-> <<"bool">>, autodetectColumns |-> <<"bool">>, delimiter |-> <<"str">>, columns |-> <<"list", <<"obj", "column">>>>]
    [] s = "jsoninput" -> Filed
    [] s = "xml" -> Filed @@ [recordXpath |-> <<"str">>, properties |-> <<"list", <<"obj", "xmlprop">>>>]
    [] s = "noop" -> Named
    [] s = "map" -> Listed
    [] s = "wildcard" -> Listed @@ [path |-> <<"str">>, ignoreCase |-> <<"bool">>]
    [] s = "sqlite" -> Named @@ [input |-> <<"str">>, dsn |-> <<"str">>, properties |-> <<"list", <<"obj", "sqliteprop">>>>]
    [] s = "fts5" -> Listed @@ [dsn |-> <<"str">>, tokenize |-> <<"str">>, prefix |-> <<"list", <<"int">>>>]
    [] s = "jsonArray" -> Out @@ [limit |-> <<"obj", "limit">>, offset |-> <<"obj", "offset">>]
    [] s = "jsonObject" -> Out
    [] s = "http" -> Named @@ [http |-> <<"obj", "listen">>, https |-> <<"obj", "tls">>, errorsType |-> <<"str">>, routes |-> <<"list", <<"obj", "route">>>>]
    [] s = "column" -> Column
    [] s = "xmlprop" -> XmlProp
    [] s = "param" -> Param
    [] s = "rel" -> Rel
    [] s = "sort" -> [property |-> <<"str">>, ascending |-> <<"bool">>]
    [] s = "match" -> [parentProperty |-> <<"str">>, childProperty |-> <<"str">>, childIndex |-> <<"str">>]
    [] s = "sqliteprop" -> [name |-> <<"str">>, collate |-> <<"str">>]
    [] s = "limit" -> [default |-> <<"uint">>, max |-> <<"uint">>, parameter |-> <<"str">>]
    [] s = "offset" -> [parameter |-> <<"str">>]
    [] s = "listen" -> [listen |-> <<"str">>]
    [] s = "tls" -> [listen |-> <<"str">>, certificatePath |-> <<"str">>, privateKeyPath |-> <<"str">>]
    [] s = "route" -> [output |-> <<"str">>, path |-> <<"str">>]
RECURSIVE Fits(_, _)
Fits(d, t) ==
  CASE d[1] = "z" -> TRUE     \* as if it was not there; see Present
    [] t[1] = "str" -> d[1] = "s"
    [] t[1] = "bool" -> d[1] = "b"
    [] t[1] = "uint" -> d[1] = "u"
    [] t[1] = "int" -> d[1] \in {"u", "i"}
    [] t[1] = "list" -> IsList(d) /\ \A i \in DOMAIN d[2] : d[2][i][1] # "z" /\ Fits(d[2][i], t[2])
    [] t[1] = "map" -> IsMap(d) /\ \A k \in Keys(d) : d[2][k][1] # "z" /\ Fits(d[2][k], t[2])
    [] t[1] = "obj" -> IsMap(d) /\ Keys(d) \subseteq DOMAIN Shape(t[2]) /\ \A k \in Keys(d) : Fits(d[2][k], Shape(t[2])[k])

ParserTypes == {"string", "integer", "float", "boolean", "json", "split"}
InputTypes == {"csv", "json", "xml"}
IndexTypes == {"noop", "map", "wildcard", "sqlite", "fts5"}
OutputTypes == {"jsonArray", "jsonObject"}
Sections == [parsers |-> ParserTypes, inputs |-> InputTypes, indexes |-> IndexTypes, outputs |-> OutputTypes, services |-> {"http"}]
ShapeOf(section, type) == IF section = "inputs" /\ type = "json" THEN "jsoninput" ELSE type
SectionFits(d, s) ==
  IF d[1] = "z" THEN TRUE ELSE
  IsList(d) /\ \A i \in DOMAIN d[2] :
    LET o == d[2][i] IN IsMap(o) /\ Has(o, "type") /\ o[2]["type"][1] = "s" /\ Text(o, "type") \in Sections[s] /\ Fits(o, <<"obj", ShapeOf(s, Text(o, "type"))>>)
DocFits(d) == IsMap(d) /\ Keys(d) \subseteq DOMAIN Sections /\ \A k \in Keys(d) : SectionFits(d[2][k], k)

(* ---- the rules; all of them suppose that the document fits ---- *)
Objects(d, s) == Items(d, s)
Ind(d, s, name) == {i \in DOMAIN Objects(d, s) : Text(Objects(d, s)[i], "name") = name}
Known(d, s, name) == ~References \/ Ind(d, s, name) # {}
Object(d, s, name) == Objects(d, s)[CHOOSE i \in Ind(d, s, name) : TRUE]
DefaultParsers == {"string", "integer", "float", "boolean", "json"}
KnownParser(d, name) == Known(d, "parsers", name) \/ name \in DefaultParsers
ParserType(d, name) == IF Ind(d, "parsers", name) # {} THEN Text(Object(d, "parsers", name), "type") ELSE name
Primitive(d, name) == ~Suitable \/ ParserType(d, name) \in {"string", "integer", "float", "boolean"}
Or(text, default) == IF text = "" THEN default ELSE text

RECURSIVE Ends(_, _, _)
Ends(d, name, fuel) == \/ ParserType(d, name) # "split"
                       \/ fuel > 0 /\ Ends(d, Text(Object(d, "parsers", name), "parser"), fuel - 1)
ParserOk(d, o) ==
  CASE Text(o, "type") = "string" -> In(Text(o, "convertFromCharset"), Facts.charsets) \/ Text(o, "convertFromCharset") = ""
    [] Text(o, "type") = "float" -> Text(o, "decimalSeparator") # ""
    [] Text(o, "type") = "boolean" -> Items(o, "trueValues") # <<>> /\ Items(o, "falseValues") # <<>>
    [] Text(o, "type") = "split" ->
         /\ Has(o, "delimiter")
         /\ Flag(o, "delimiterIsRegexp", FALSE) => ~In(Text(o, "delimiter"), Facts.badregexps)
         /\ KnownParser(d, Text(o, "parser"))
         /\ ~Cycles \/ ((\A i \in DOMAIN Objects(d, "parsers") : Text(Objects(d, "parsers")[i], "type") = "split" => KnownParser(d, Text(Objects(d, "parsers")[i], "parser"))) => Ends(d, Text(o, "name"), 1 + Len(Objects(d, "parsers"))))
    [] OTHER -> TRUE

IsFile(p) == In(p, Facts.files)
RECURSIVE XmlPropOk(_, _, _), XmlPropsOk(_, _)
XmlPropsOk(d, l) == Distinct(NamesOf(l)) /\ \A i \in DOMAIN l : XmlPropOk(d, l[i], TRUE)
XmlPropOk(d, p, named) ==
  LET t == Or(Text(p, "type"), "primitive") IN
  /\ named => Text(p, "name") # ""
  /\ ~In(Text(p, "xpath"), Facts.badxpaths)
  /\ t \in {"primitive", "array", "object"}
  /\ IF t = "primitive" THEN KnownParser(d, Or(Text(p, "parser"), "string")) ELSE Text(p, "parser") = ""
  /\ IF t = "array" THEN Has(p, "items") /\ XmlPropOk(d, Get(p, "items"), FALSE) ELSE ~Has(p, "items")
  /\ IF t = "object" THEN Items(p, "properties") # <<>> /\ XmlPropsOk(d, Items(p, "properties")) ELSE Items(p, "properties") = <<>>
InputOk(d, o) ==
  /\ IsFile(Text(o, "path"))
  /\ CASE Text(o, "type") = "csv" ->
            /\ Flag(o, "autodetectColumns", FALSE) = (Items(o, "columns") = <<>>)
            /\ In(Or(Text(o, "delimiter"), ","), Facts.delimiters)
            /\ Distinct(NamesOf(Items(o, "columns")))
            /\ \A i \in DOMAIN Items(o, "columns") : LET c == Items(o, "columns")[i] IN Text(c, "name") # "" /\ KnownParser(d, Or(Text(c, "parser"), "string"))
       [] Text(o, "type") = "xml" -> /\ ~In(Text(o, "recordXpath"), Facts.badxpaths)
                                     /\ Items(o, "properties") # <<>> /\ XmlPropsOk(d, Items(o, "properties"))
       [] OTHER -> TRUE

(* The columns of a csv input are known: those which are indexed must be some of them (the files are not empty). *)
Indexed(o) == IF Text(o, "type") = "sqlite" THEN {Text(Items(o, "properties")[i], "name") : i \in DOMAIN Items(o, "properties")} ELSE {Items(o, "properties")[i][2] : i \in DOMAIN Items(o, "properties")}
Columns(o) == IF Flag(o, "autodetectColumns", FALSE) THEN LET h == Facts.headers[Text(o, "path")] IN {h[i] : i \in DOMAIN h}
              ELSE {Text(Items(o, "columns")[i], "name") : i \in DOMAIN Items(o, "columns")}
ColumnsOk(d, o) == Ind(d, "inputs", Text(o, "input")) # {} =>
                   LET i == Object(d, "inputs", Text(o, "input")) IN Text(i, "type") = "csv" => Indexed(o) \subseteq Columns(i)
IndexOk(d, o) ==
  IF Text(o, "type") = "noop" THEN TRUE ELSE
  /\ Known(d, "inputs", Text(o, "input")) /\ ColumnsOk(d, o) /\ "" \notin Indexed(o)
  /\ CASE Text(o, "type") = "sqlite" ->
            /\ In(Text(o, "dsn"), Facts.dsns) /\ Distinct(NamesOf(Items(o, "properties")))
            /\ \A i \in DOMAIN Items(o, "properties") : LET p == Items(o, "properties")[i] IN Text(p, "name") # "" /\ In(Or(Text(p, "collate"), "BINARY"), Facts.collations)
       [] Text(o, "type") = "fts5" -> /\ In(Text(o, "dsn"), Facts.dsns) /\ Items(o, "properties") # <<>> /\ Distinct(Items(o, "properties"))
                                      /\ In(Or(Text(o, "tokenize"), "unicode61"), Facts.tokenizers)
                                      /\ \A i \in DOMAIN Items(o, "prefix") : Items(o, "prefix")[i][1] = "u" /\ Items(o, "prefix")[i][2] \in 1..998
       [] Text(o, "type") = "wildcard" -> Text(o, "path") # "" /\ ~In(Text(o, "path"), Facts.notpaths) /\ Distinct(Items(o, "properties"))
       [] OTHER -> Distinct(Items(o, "properties"))

Handles(d, index, input, property) ==
  \/ ~Suitable
  \/ Ind(d, "indexes", index) = {}      \* the default index, unless it is declared
  \/ LET o == Object(d, "indexes", index) IN
       CASE Text(o, "type") = "noop" -> TRUE
         [] Text(o, "type") = "fts5" -> Text(o, "input") = input /\ property = "match"
         [] Text(o, "type") = "sqlite" -> Text(o, "input") = input /\ \E i \in DOMAIN Items(o, "properties") : Text(Items(o, "properties")[i], "name") = property
         [] OTHER -> Text(o, "input") = input /\ \E i \in DOMAIN Items(o, "properties") : Items(o, "properties")[i][2] = property
KnownIndex(d, name) == Known(d, "indexes", name) \/ name = "default"
ParamOk(d, p, input) ==
  LET index == Or(Text(p, "index"), "default") IN
  /\ Text(p, "property") # "" /\ KnownIndex(d, index) /\ Handles(d, index, input, Text(p, "property"))
  /\ KnownParser(d, Or(Text(p, "parser"), "string")) /\ Primitive(d, Or(Text(p, "parser"), "string"))
RECURSIVE RelOk(_, _)
RelOk(d, r) ==
  /\ Known(d, "inputs", Text(r, "input"))
  /\ Items(r, "sort") # <<>> => Flag(r, "isArray", FALSE)
  /\ LET ps == [i \in DOMAIN Items(r, "sort") |-> Text(Items(r, "sort")[i], "property")] IN Distinct(ps)
  /\ Items(r, "match") # <<>>
  /\ Distinct([i \in DOMAIN Items(r, "match") |-> Text(Items(r, "match")[i], "childProperty")])
  /\ \A i \in DOMAIN Items(r, "match") :
       LET m == Items(r, "match")[i] index == Or(Text(m, "childIndex"), "default") IN
       KnownIndex(d, index) /\ Handles(d, index, Text(r, "input"), Text(m, "childProperty"))
  /\ \A k \in DOMAIN Members(r, "relationships") : RelOk(d, Members(r, "relationships")[k])
Limit(o) == Get(o, "limit")
NonZero(n, default) == IF n = 0 THEN default ELSE n
ReservedParams(o) == IF Text(o, "type") = "jsonArray" THEN {Or(Text(Limit(o), "parameter"), "limit"), Or(Text(Get(o, "offset"), "parameter"), "offset")} ELSE {}
OutputOk(d, o) ==
  /\ Known(d, "inputs", Text(o, "input"))
  /\ \A k \in DOMAIN Members(o, "parameters") : ParamOk(d, Members(o, "parameters")[k], Text(o, "input"))
  /\ \A k \in DOMAIN Members(o, "relationships") : RelOk(d, Members(o, "relationships")[k])
  /\ IF Text(o, "type") = "jsonObject" THEN DOMAIN Members(o, "parameters") # {}
     ELSE /\ NonZero(Num(Limit(o), "default"), 100) <= NonZero(Num(Limit(o), "max"), 1000)
          /\ DOMAIN Members(o, "parameters") \cap ReservedParams(o) = {}

Listens(t) == In(Or(t, "127.0.0.1:0"), Facts.addresses)
RouteOk(d, r) ==
  /\ Text(r, "output") # "" /\ Text(r, "path") # "" /\ Known(d, "outputs", Text(r, "output"))
  /\ ~Suitable \/ LET o == Object(d, "outputs", Text(r, "output")) ps == Facts.params[Text(r, "path")] IN
       \A i \in DOMAIN ps : ps[i] \in DOMAIN Members(o, "parameters")
ServiceOk(d, o) ==
  /\ Has(o, "http") \/ Has(o, "https")
  /\ Has(o, "http") => Listens(Text(Get(o, "http"), "listen"))
  /\ Has(o, "https") => LET h == Get(o, "https") IN Listens(Text(h, "listen")) /\ \E i \in DOMAIN Facts.pairs : Facts.pairs[i] = <<Text(h, "certificatePath"), Text(h, "privateKeyPath")>>
  /\ Or(Text(o, "errorsType"), "application/json") = "application/json"
  /\ Items(o, "routes") # <<>> /\ Distinct([i \in DOMAIN Items(o, "routes") |-> Text(Items(o, "routes")[i], "path")])
  /\ \A i \in DOMAIN Items(o, "routes") : RouteOk(d, Items(o, "routes")[i])

AllOk(d, s, Ok(_, _)) == \A i \in DOMAIN Objects(d, s) : Text(Objects(d, s)[i], "name") # "" /\ Ok(d, Objects(d, s)[i])
NamesOk(d) == \A s \in DOMAIN Sections : Distinct(NamesOf(Objects(d, s)))
Accepts(d) == IF ~DocFits(d) THEN FALSE ELSE IF ~NamesOk(d) THEN FALSE ELSE
              IF ~AllOk(d, "parsers", ParserOk) THEN FALSE ELSE IF ~AllOk(d, "inputs", InputOk) THEN FALSE ELSE
              IF ~AllOk(d, "indexes", IndexOk) THEN FALSE ELSE IF ~AllOk(d, "outputs", OutputOk) THEN FALSE ELSE
              AllOk(d, "services", ServiceOk)

(* ---- the normal form of an accepted document ---- *)
With(d, k, default) == IF IsMap(d) /\ ~Has(d, k) THEN <<"m", (k :> default) @@ d[2]>> ELSE d
WithText(d, k, default) == IF Text(d, k) = "" THEN <<"m", (k :> <<"s", default>>) @@ d[2]>> ELSE d
WithNum(d, k, default) == IF Num(d, k) = 0 THEN <<"m", (k :> <<"u", default>>) @@ d[2]>> ELSE d
MapItems(d, k, F(_)) == IF Has(d, k) THEN <<"m", [d[2] EXCEPT ![k] = <<"l", TLCEval([i \in DOMAIN @[2] |-> F(@[2][i])])>>]>> ELSE With(d, k, <<"l", <<>>>>)
MapMembers(d, k, F(_)) == IF Has(d, k) THEN <<"m", [d[2] EXCEPT ![k] = <<"m", TLCEval([x \in DOMAIN @[2] |-> F(@[2][x])])>>]>> ELSE With(d, k, <<"m", [x \in {} |-> Null]>>)
Plain(d) == <<"m", TLCEval([k \in {x \in Keys(d) : d[2][x][1] # "z"} |-> d[2][k]])>>   \* null is the same as nothing
False == <<"b", FALSE>>
True == <<"b", TRUE>>
NoText == <<"s", "">>
RECURSIVE NXmlProp(_)
NXmlProp(p0) == LET p == WithText(Plain(p0), "type", "primitive") IN
  CASE Text(p, "type") = "primitive" -> WithText(p, "parser", "string")
    [] Text(p, "type") = "array" -> <<"m", [p[2] EXCEPT !["items"] = NXmlProp(@)]>>
    [] Text(p, "type") = "object" -> MapItems(p, "properties", NXmlProp)
NParser(p0) == LET p == Plain(p0) IN
  CASE Text(p, "type") = "string" -> With(p, "convertFromCharset", NoText)
    [] Text(p, "type") \in {"integer", "float"} -> With(p, "ignoreCharacters", NoText)
    [] Text(p, "type") = "split" -> With(p, "delimiterIsRegexp", False)
    [] OTHER -> p
NColumn(x) == WithText(Plain(x), "parser", "string")
NInput(o0) == LET o == With(Plain(o0), "dieOnInputChange", True) IN
  CASE Text(o, "type") = "csv" -> WithText(With(With(MapItems(o, "columns", NColumn), "ignoreFirstRow", False), "autodetectColumns", False), "delimiter", ",")
    [] Text(o, "type") = "xml" -> MapItems(o, "properties", NXmlProp)
    [] OTHER -> o
NSqliteProp(x) == WithText(Plain(x), "collate", "BINARY")
NIndex(o0) == LET o == Plain(o0) IN
  CASE Text(o, "type") = "sqlite" -> MapItems(o, "properties", NSqliteProp)
    [] Text(o, "type") = "fts5" -> WithText(With(o, "prefix", <<"l", <<>>>>), "tokenize", "unicode61")
    [] Text(o, "type") = "wildcard" -> With(o, "ignoreCase", False)
    [] OTHER -> o
NParam(x) == WithText(WithText(Plain(x), "index", "default"), "parser", "string")
NSort(x) == With(Plain(x), "ascending", True)
NMatch(x) == WithText(Plain(x), "childIndex", "default")
RECURSIVE NRel(_)
NRel(x) == MapMembers(MapItems(MapItems(With(WithNum(Plain(x), "limit", 0), "isArray", False), "sort", NSort), "match", NMatch), "relationships", NRel)
NEmpty == <<"m", [x \in {} |-> Null]>>
NLimit(l) == WithText(WithNum(WithNum(l, "default", 100), "max", 1000), "parameter", "limit")
NOutput(o0) ==
  LET o1 == MapMembers(MapMembers(Plain(o0), "parameters", NParam), "relationships", NRel) IN
  IF Text(o1, "type") = "jsonObject" THEN o1 ELSE
  LET o2 == With(With(o1, "limit", NEmpty), "offset", NEmpty) IN
  <<"m", [o2[2] EXCEPT !["limit"] = NLimit(Plain(@)), !["offset"] = WithText(Plain(@), "parameter", "offset")]>>
NService(o) == WithText(Plain(o), "errorsType", "application/json")
Norm(d0) ==
  LET d == Plain(d0) IN
  MapItems(MapItems(MapItems(MapItems(MapItems(d, "parsers", NParser), "inputs", NInput), "indexes", NIndex), "outputs", NOutput), "services", NService)
(* equality of documents, without comparing values of different kinds *)
RECURSIVE Same(_, _)
Same(a, b) == IF a[1] # b[1] THEN FALSE ELSE
              CASE a[1] = "z" -> TRUE
                [] a[1] = "l" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : Same(a[2][i], b[2][i])
                [] a[1] = "m" -> Keys(a) = Keys(b) /\ \A k \in Keys(a) : Same(a[2][k], b[2][k])
                [] OTHER -> a[2] = b[2]

(* ---- editing ---- *)
(* An edit is [path |-> keys (numbers of list items written as texts), op |-> "set", "unset", "add" or "drop", value |-> doc] *)
RECURSIVE Can(_, _, _), Apply(_, _, _)
Index(k) == Facts.numbers[k]
Step(d, k) == IF IsMap(d) THEN d[2][k] ELSE d[2][Index(k)]
Can(d, path, op) ==
  IF path = <<>> THEN op # "add" \/ IsList(d) ELSE
  IF IsMap(d) THEN \/ Head(path) \in Keys(d) /\ Can(d[2][Head(path)], Tail(path), op)
                   \/ Head(path) \notin Keys(d) /\ Len(path) = 1 /\ op = "set"
  ELSE IsList(d) /\ Head(path) \in DOMAIN Facts.numbers /\ Index(Head(path)) \in DOMAIN d[2] /\ Can(d[2][Index(Head(path))], Tail(path), op)
Without(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
Apply(d, path, e) ==
  IF path = <<>> THEN IF e.op = "add" THEN <<"l", Append(d[2], e.value)>> ELSE e.value
  ELSE LET k == Head(path) IN
       IF IsMap(d)
       THEN IF Len(path) = 1 /\ e.op = "unset" THEN <<"m", TLCEval([x \in Keys(d) \ {k} |-> d[2][x]])>>
            ELSE IF k \notin Keys(d) THEN <<"m", (k :> e.value) @@ d[2]>>
            ELSE <<"m", [d[2] EXCEPT ![k] = Apply(@, Tail(path), e)]>>
       ELSE IF Len(path) = 1 /\ e.op = "unset" THEN <<"l", Without(d[2], Index(k))>>
            ELSE <<"l", [d[2] EXCEPT ![Index(k)] = Apply(@, Tail(path), e)]>>

VARIABLES doc, done, ok     \* the document, the edits made, and whether the rules accept it
vars == <<doc, done, ok>>
NormBase == Norm(Base)
Init == doc = Base /\ done = <<>> /\ ok = Accepts(Base)
Report(d, es, a) == PrintT(<<"CONFIG", ToJson([edits |-> es, accept |-> a, same |-> IF a THEN Same(Norm(d), NormBase) ELSE FALSE])>>)
Edit == /\ Len(done) < MaxEdits
        /\ \E n \in DOMAIN Edits :
             /\ done # <<>> => n > done[Len(done)]       \* edits of different places: their order makes no difference
             /\ Can(doc, Edits[n].path, Edits[n].op)
             /\ doc' = Apply(doc, Edits[n].path, Edits[n])
             /\ done' = Append(done, n)
             /\ ok' = Accepts(doc')
             /\ Report(doc', done', ok')
Next == Edit
Spec == Init /\ [][Next]_vars
(* What the rules are for, said another way. *)
Referenced(d) ==
  UNION {{<<"parsers", Text(o, "parser")>> : o \in {Objects(d, "parsers")[i] : i \in {j \in DOMAIN Objects(d, "parsers") : Text(Objects(d, "parsers")[j], "type") = "split"}}},
         {<<"inputs", Text(Objects(d, "indexes")[i], "input")>> : i \in {j \in DOMAIN Objects(d, "indexes") : Text(Objects(d, "indexes")[j], "type") # "noop"}},
         {<<"inputs", Text(Objects(d, "outputs")[i], "input")>> : i \in DOMAIN Objects(d, "outputs")},
         UNION {{<<"outputs", Text(Items(Objects(d, "services")[i], "routes")[j], "output")>> : j \in DOMAIN Items(Objects(d, "services")[i], "routes")} : i \in DOMAIN Objects(d, "services")},
         UNION {{<<"indexes", Or(Text(p, "index"), "default")>> : p \in {Members(Objects(d, "outputs")[i], "parameters")[k] : k \in DOMAIN Members(Objects(d, "outputs")[i], "parameters")}} : i \in DOMAIN Objects(d, "outputs")}}
Resolved == ok => \A r \in Referenced(doc) : Ind(doc, r[1], r[2]) # {} \/ r = <<"indexes", "default">> \/ (r[1] = "parsers" /\ r[2] \in DefaultParsers)
Unique == ok => \A s \in DOMAIN Sections : Cardinality({Text(Objects(doc, s)[i], "name") : i \in DOMAIN Objects(doc, s)}) = Len(Objects(doc, s))
SplitNames == {Text(Objects(doc, "parsers")[i], "name") : i \in {j \in DOMAIN Objects(doc, "parsers") : Text(Objects(doc, "parsers")[j], "type") = "split"}}
(* a non empty set of split parsers which only refer to one another has no end *)
Ended == ok => \A S \in SUBSET SplitNames : S # {} => \E n \in S : Text(Object(doc, "parsers", n), "parser") \notin S
Filterable == ok => \A i \in DOMAIN Objects(doc, "outputs") : \A k \in DOMAIN Members(Objects(doc, "outputs")[i], "parameters") :
                LET p == Members(Objects(doc, "outputs")[i], "parameters")[k] IN ParserType(doc, Or(Text(p, "parser"), "string")) \notin {"split", "json"}
(* The normal form is one: it is accepted exactly when the document is, and it is its own normal form.  The first
   document is accepted; an object which is not used anywhere can be removed. *)
BaseOk == done = <<>> => ok
Normal == ok => LET n == Norm(doc) IN Accepts(n) /\ Same(Norm(n), n)
=============================================================================
