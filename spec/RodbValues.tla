----------------------------- MODULE RodbValues -----------------------------
(* The values rodb handles, and what its parsers make of a text.
   Texts are sequences of Unicode code points.  A value is a tagged tuple:
     <<"n">> null, <<"b", BOOLEAN>>, <<"s", codes>>, <<"i", n>> integer,
     <<"f", thousandths>> float, <<"x">> a float JSON cannot represent,
     <<"I"|"F", sign, digits, power of ten>> the numbers which are not thousandths below a million (digits without
     zeros at either end, so that equal numbers are equal tuples),
     <<"a", seq>> array, <<"o", function from names>> object.
   On the wire (a JSON response) integers and floats are both <<"d", thousandths>>, or <<"D", sign, digits, power>>. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Nil     == <<"n">>
StrV(c)  == <<"s", c>>
IntV(n) == <<"i", n>>
Flt(n)  == <<"f", n>>
Bool(b) == <<"b", b>>
Arr(q)  == <<"a", q>>
Obj(f)  == <<"o", f>>
NonFinite == <<"x">>
Tag(v) == v[1]

Ok(v) == <<"ok", v>>
Err   == <<"err">>
IsOk(r) == r[1] = "ok"
Val(r) == r[2]

------------------------------------------------------------------------------
(* Wire form *)
RECURSIVE Encodable(_)
Encodable(v) ==
  CASE Tag(v) = "x" -> FALSE
    [] Tag(v) = "a" -> \A i \in 1..Len(v[2]) : Encodable(v[2][i])
    [] Tag(v) = "o" -> \A k \in DOMAIN v[2] : Encodable(v[2][k])
    [] OTHER -> TRUE

RECURSIVE Wire(_)
Wire(v) ==
  CASE Tag(v) = "i" -> <<"d", 1000 * v[2]>>
    [] Tag(v) = "f" -> <<"d", v[2]>>
    [] Tag(v) \in {"I", "F"} -> <<"D", v[2], v[3], v[4]>>
    [] Tag(v) = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Wire(v[2][i])]>>
    [] Tag(v) = "o" -> <<"o", [k \in DOMAIN v[2] |-> Wire(v[2][k])]>>
    [] OTHER -> v

------------------------------------------------------------------------------
(* Texts *)
IsDigit(c) == c \in 48..57
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
RECURSIVE NatOf(_, _)
NatOf(s, acc) == IF s = <<>> THEN acc ELSE NatOf(Tail(s), 10 * acc + (Head(s) - 48))
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Head(s) = 48 THEN StripZeros(Tail(s)) ELSE s
RemoveChars(s, chars) == SelectSeq(s, LAMBDA c : c \notin chars)

LowerCode(c) == IF c \in 65..90 \/ c \in (192..222) \ {215} \/ c \in 913..929 \/ c \in 931..937 \/ c \in 1040..1071
                THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerCode(s[i])]
AsciiLower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s

At(hay, needle, i) == i + Len(needle) - 1 <= Len(hay) /\ \A j \in 1..Len(needle) : hay[i + j - 1] = needle[j]
HasPart(hay, needle) == \E i \in 1..Len(hay) : At(hay, needle, i)

RECURSIVE SplitOn(_, _, _)
SplitOn(s, d, cur) ==   \* pieces of s between the (leftmost, non-overlapping) occurrences of d
  IF s = <<>> THEN <<cur>>
  ELSE IF At(s, d, 1) THEN <<cur>> \o SplitOn(SubSeq(s, Len(d) + 1, Len(s)), d, <<>>)
  ELSE SplitOn(Tail(s), d, Append(cur, Head(s)))

RECURSIVE Substitute(_, _, _)
Substitute(s, d, r) ==
  IF s = <<>> THEN <<>>
  ELSE IF At(s, d, 1) THEN r \o Substitute(SubSeq(s, Len(d) + 1, Len(s)), d, r)
  ELSE <<Head(s)>> \o Substitute(Tail(s), d, r)

(* Codes as a TLA+ string; T maps each code (as a string) to the string of that one character. *)
Utf(T, c) == FoldLeft(LAMBDA a, x : a \o T[ToString(x)], "", c)

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
                 ELSE LexLess(Tail(a), Tail(b))

------------------------------------------------------------------------------
(* Parsers.  p is a record [type |-> ..., ...]; P maps parser names to parsers. *)
SignOf(s) == IF s # <<>> /\ s[1] = 45 THEN -1 ELSE 1
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s

(* The number sign * digits * 10^e. *)
RECURSIVE TrimZeros(_, _)
TrimZeros(s, e) == IF s # <<>> /\ s[Len(s)] = 48 THEN TrimZeros(SubSeq(s, 1, Len(s) - 1), e + 1) ELSE <<s, e>>
Zeros(n) == [i \in 1..n |-> 48]
Number(sign, digits, e, small, large) ==   \* tags of the small and of the large form
  LET d0 == StripZeros(digits)
      t == IF d0 = <<48>> THEN <<<<>>, 0>> ELSE TrimZeros(d0, e)
      d == t[1]
      x == t[2]
  IN IF d = <<>> THEN <<small, 0>>
     ELSE IF x >= (IF small = "i" THEN 0 ELSE -3) /\ Len(d) + x <= 6
          THEN <<small, sign * NatOf(d \o Zeros(IF small = "i" THEN x ELSE x + 3), 0)>>
     ELSE <<large, sign, d, x>>

MaxInt64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
MinInt64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> THEN FALSE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Lex(Tail(a), Tail(b))
ParseInteger(p, s) ==
  LET t == RemoveChars(s, ToSet(p.ignore))
      d == Unsigned(t)
      z == StripZeros(d)
      limit == IF SignOf(t) = 1 THEN MaxInt64 ELSE MinInt64
  IN IF ~AllDigits(d) THEN Err
     ELSE IF Len(z) > 19 \/ (Len(z) = 19 /\ Lex(limit, z)) THEN Err          \* out of the 64-bit range
     ELSE Ok(Number(SignOf(t), z, 0, "i", "I"))

NonFiniteTexts == { <<110,97,110>>, <<105,110,102>>, <<105,110,102,105,110,105,116,121>> }

(* Decimal digits with at most one separator, at least one digit, and maybe a power of ten.  Whatever the separator,
   a dot separates too.  Out of the range of doubles: an error.  (At most 15 digits: these are exact.) *)
ParseFloat(p, s) ==
  LET t0 == RemoveChars(s, ToSet(p.ignore))
      t  == IF p.sep = <<46>> THEN t0 ELSE Substitute(t0, p.sep, <<46>>)
      u0 == Unsigned(t)
      es == {i \in 1..Len(u0) : u0[i] \in {101, 69}}
      ei == CHOOSE i \in es : \A j \in es : i <= j
      u  == IF es = {} THEN u0 ELSE SubSeq(u0, 1, ei - 1)
      xt == IF es = {} THEN <<48>> ELSE SubSeq(u0, ei + 1, Len(u0))
      dots == {i \in 1..Len(u) : u[i] = 46}
      ip == IF dots = {} THEN u ELSE SubSeq(u, 1, (CHOOSE i \in dots : TRUE) - 1)
      fp == IF dots = {} THEN <<>> ELSE SubSeq(u, (CHOOSE i \in dots : TRUE) + 1, Len(u))
      okPart(x) == x = <<>> \/ AllDigits(x)
      x  == NatOf(SubSeq(StripZeros(Unsigned(xt)), 1, IF Len(StripZeros(Unsigned(xt))) > 5 THEN 5 ELSE Len(StripZeros(Unsigned(xt)))), 0) * SignOf(xt) - Len(fp)
      n  == Number(SignOf(t), ip \o fp, x, "f", "F")
  IN IF AsciiLower(u0) \in NonFiniteTexts
     THEN IF AsciiLower(u0) = <<110,97,110>> /\ u0 # t THEN Err ELSE Ok(NonFinite)
     ELSE IF Cardinality(dots) > 1 \/ ~okPart(ip) \/ ~okPart(fp) \/ (ip = <<>> /\ fp = <<>>) \/ ~AllDigits(Unsigned(xt)) THEN Err
     ELSE IF Tag(n) = "F" /\ Len(n[3]) + n[4] > 309 THEN Err
     ELSE IF Tag(n) = "F" /\ Len(n[3]) + n[4] < -330 THEN Ok(Flt(0))
     ELSE Ok(n)

ParseBoolean(p, s) ==
  IF \E i \in 1..Len(p.t) : p.t[i] = s THEN Ok(Bool(TRUE))
  ELSE IF \E i \in 1..Len(p.f) : p.f[i] = s THEN Ok(Bool(FALSE))
  ELSE Err

Primitive(p) == p.type \in {"string", "integer", "float", "boolean"}

(* A charset maps bytes (or sequences of bytes, the first of which has no character of its own) to characters. *)
Decode(cs, bytes) ==
  FoldLeft(LAMBDA a, b : IF a.pend = <<>> /\ cs.one[b + 1] >= 0 THEN [a EXCEPT !.out = Append(@, cs.one[b + 1])]
                         ELSE LET p == Append(a.pend, b)
                                  t == {i \in 1..Len(cs.two) : cs.two[i].b = p}
                              IN IF t = {} THEN [a EXCEPT !.pend = p] ELSE [out |-> Append(a.out, cs.two[CHOOSE i \in t : TRUE].c), pend |-> <<>>],
           [out |-> <<>>, pend |-> <<>>], bytes).out
Utf8Of(c) == IF c < 128 THEN <<c>>
             ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
             ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == FlattenSeq([i \in 1..Len(s) |-> Utf8Of(s[i])])

(* A delimiter given as a regular expression: a sequence of [any |-> characters, min |-> 0 or 1, many |-> BOOLEAN].
   ReEnd: where a match starting at i ends (0: no match); the sets of neighbouring elements are disjoint. *)
RECURSIVE ReEnd(_, _, _)
ReEnd(s, re, i) ==
  IF re = <<>> THEN i
  ELSE LET h == Head(re)
           one == i <= Len(s) /\ s[i] \in ToSet(h.any)
       IN IF one THEN ReEnd(s, IF h.many THEN <<[h EXCEPT !.min = 0]>> \o Tail(re) ELSE Tail(re), i + 1)
          ELSE IF h.min = 0 THEN ReEnd(s, Tail(re), i) ELSE 0
RECURSIVE SplitRe(_, _, _)
SplitRe(s, re, cur) ==
  IF s = <<>> THEN <<cur>>
  ELSE LET e == ReEnd(s, re, 1) IN
       IF e > 1 THEN <<cur>> \o SplitRe(SubSeq(s, e, Len(s)), re, <<>>) ELSE SplitRe(Tail(s), re, Append(cur, Head(s)))

RECURSIVE Parse(_, _, _)
(* The text of a request is UTF-8, which a parser with another charset reads as bytes of that charset. *)
ParamText(p, text) == IF "charset" \in DOMAIN p THEN Utf8(text) ELSE text
(* A cell holding JSON text is given as the value it denotes: <<"json", value>>, or <<"badjson">>. *)
Parse(P, name, cell) ==
  LET p == P[name] IN
  CASE p.type = "string"  -> Ok(StrV(IF "charset" \in DOMAIN p THEN Decode(p.charset, cell) ELSE cell))
    [] p.type = "integer" -> ParseInteger(p, cell)
    [] p.type = "float"   -> ParseFloat(p, cell)
    [] p.type = "boolean" -> ParseBoolean(p, cell)
    [] p.type \in {"json", "jsontext"} -> IF cell[1] = "json" THEN Ok(cell[2]) ELSE Err
    [] p.type = "split"   ->
         LET pieces == IF "re" \in DOMAIN p THEN SplitRe(cell, p.re, <<>>)
                       ELSE IF p.delim = <<>> THEN [i \in 1..Len(cell) |-> <<cell[i]>>]
                       ELSE SplitOn(cell, p.delim, <<>>)
             parsed == [i \in 1..Len(pieces) |-> Parse(P, p.parser, pieces[i])]
         IN IF \A i \in 1..Len(parsed) : IsOk(parsed[i])
            THEN Ok(Arr([i \in 1..Len(parsed) |-> Val(parsed[i])]))
            ELSE Err

(* What a {parameter} segment of a route accepts: the patterns of the parsers. *)
IntBody(s, ign) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i]) \/ s[i] \in ign
SignedBody(s, ign, Body(_)) ==
  \E i \in 0..Len(s) :
     /\ \A j \in 1..i : s[j] \in ign
     /\ LET r == SubSeq(s, i + 1, Len(s)) IN
        Body(r) \/ (r # <<>> /\ r[1] = 45 /\ Body(Tail(r)))
FloatBody(s, ign, sep) ==
  \/ IntBody(s, ign)
  \/ \E i \in 2..(Len(s) - 1) : s[i] \in sep /\ IntBody(SubSeq(s, 1, i - 1), ign) /\ IntBody(SubSeq(s, i + 1, Len(s)), ign)
PatternAccepts(p, s) ==
  CASE p.type = "string"  -> s # <<>> /\ \A i \in 1..Len(s) : s[i] # 10
    [] p.type = "integer" -> LET ign == ToSet(p.ignore) IN SignedBody(s, ign, LAMBDA r : IntBody(r, ign))
    [] p.type = "float"   -> LET ign == ToSet(p.ignore) IN SignedBody(s, ign, LAMBDA r : FloatBody(r, ign, ToSet(p.sep)))
    [] p.type = "boolean" -> s \in ToSet(p.t) \cup ToSet(p.f)

------------------------------------------------------------------------------
(* Order used by sorts.  Missing values (null) come before all the others. *)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DigitsOf(n \div 10), 48 + (n % 10))
\* A number as [sign, digits without leading zeros, power of ten of the first digit]
Magnitude(v) ==
  CASE Tag(v) \in {"i", "f"} ->
         LET n == IF v[2] < 0 THEN 0 - v[2] ELSE v[2]
             d == DigitsOf(n)
         IN IF n = 0 THEN [s |-> 0, d |-> <<>>, x |-> 0]
            ELSE [s |-> IF v[2] < 0 THEN -1 ELSE 1, d |-> TrimZeros(d, 0)[1], x |-> Len(d) + (IF Tag(v) = "f" THEN -3 ELSE 0)]
    [] OTHER -> [s |-> v[2], d |-> v[3], x |-> Len(v[3]) + v[4]]
NumLess(a, b) ==
  LET m == Magnitude(a)
      n == Magnitude(b)
      less(p, q) == IF p.x # q.x THEN p.x < q.x ELSE LexLess(p.d, q.d)
  IN IF m.s # n.s THEN m.s < n.s ELSE IF m.s = 0 THEN FALSE ELSE IF m.s = 1 THEN less(m, n) ELSE less(n, m)

NumKind(v) == CASE Tag(v) \in {"i", "I"} -> "i" [] Tag(v) \in {"f", "F"} -> "f" [] OTHER -> Tag(v)
Cmp(a, b) ==   \* "lt", "eq", "gt", or "err" when the two cannot be compared
  IF a = b THEN "eq"
  ELSE IF Tag(a) = "n" THEN "lt"
  ELSE IF Tag(b) = "n" THEN "gt"
  ELSE IF NumKind(a) # NumKind(b) THEN "err"
  ELSE CASE NumKind(a) \in {"i", "f"} -> IF NumLess(a, b) THEN "lt" ELSE "gt"
         [] Tag(a) = "s" -> IF LexLess(a[2], b[2]) THEN "lt" ELSE "gt"
         [] Tag(a) = "b" -> IF ~a[2] THEN "lt" ELSE "gt"
         [] OTHER -> "err"

(* Navigation below a property: GetSub(v, path), path a sequence of [k |-> name, i |-> number or NotANumber].
   A missing member, index or a null on the way gives null; going below a scalar is an error. *)
NotANumber == -999
RECURSIVE GetSub(_, _)
GetSub(v, path) ==
  IF path = <<>> THEN Ok(v)
  ELSE LET h == Head(path) IN
    CASE Tag(v) = "n" -> Ok(Nil)
      [] Tag(v) = "o" -> IF h.k \in DOMAIN v[2] THEN GetSub(v[2][h.k], Tail(path)) ELSE Ok(Nil)
      [] Tag(v) = "a" -> IF h.i = NotANumber THEN Err
                         ELSE IF h.i < 0 \/ h.i >= Len(v[2]) THEN Ok(Nil)
                         ELSE GetSub(v[2][h.i + 1], Tail(path))
      [] OTHER -> Err
=============================================================================
