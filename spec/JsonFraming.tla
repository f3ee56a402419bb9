---------------------------- MODULE JsonFraming -----------------------------
(* A file of concatenated JSON objects, read from its text (a sequence of codes).  Grammar of RFC 8259; numbers are
   doubles (of at most 15 digits, so that they are exact); the last of several members of the same name wins; a file is bad from the first place
   where neither white space nor a complete object follows.                                                         *)
EXTENDS RodbValues
Blank == {32, 9, 10, 13}
RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ s[i] \in Blank THEN SkipWs(s, i + 1) ELSE i
C(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
No == [ok |-> FALSE]
Yes(v, n) == [ok |-> TRUE, v |-> v, n |-> n]   \* value, next position

HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
EscapeOf(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
(* Inside a string, from position i (after the opening quote): first its end, then what it holds, by an automaton:
   in  "" plain, "e" after a backslash, "u" in the n-th digit of \uXXXX (h so far);  hi a high surrogate waiting for the low one.
   Unpaired surrogates read as U+FFFD. *)
RECURSIVE StrEnd(_, _)
StrEnd(s, i) == LET c == C(s, i) IN IF c = 34 THEN i ELSE IF c < 32 THEN 0 ELSE StrEnd(s, IF c = 92 /\ C(s, i + 1) >= 32 THEN i + 2 ELSE i + 1)
Flush(a) == IF a.hi = -1 THEN a ELSE [a EXCEPT !.hi = -1, !.out = Append(@, 65533)]
Put(a, c) == LET b == Flush(a) IN [b EXCEPT !.out = Append(@, c), !.in = ""]
PutUnit(a, h) == CASE h \in 55296..56319 -> [Flush(a) EXCEPT !.hi = h, !.in = ""]
                   [] h \in 56320..57343 -> IF a.hi = -1 THEN Put(a, 65533)
                                            ELSE [a EXCEPT !.out = Append(@, 65536 + (a.hi - 55296) * 1024 + (h - 56320)), !.hi = -1, !.in = ""]
                   [] OTHER -> Put(a, h)
StrStep(a, c) ==
  CASE a.in = "bad" -> a
    [] a.in = ""    -> IF c = 92 THEN [a EXCEPT !.in = "e"] ELSE Put(a, c)
    [] a.in = "e"   -> IF c = 117 THEN [a EXCEPT !.in = "u", !.n = 0, !.h = 0]
                       ELSE IF EscapeOf(c) = -1 THEN [a EXCEPT !.in = "bad"] ELSE Put(a, EscapeOf(c))
    [] a.in = "u"   -> IF HexVal(c) = -1 THEN [a EXCEPT !.in = "bad"]
                       ELSE IF a.n = 3 THEN PutUnit(a, 16 * a.h + HexVal(c)) ELSE [a EXCEPT !.n = @ + 1, !.h = 16 * @ + HexVal(c)]
Str(s, i) == LET e == StrEnd(s, i)
                 r == TLCEval(FoldLeft(StrStep, [out |-> <<>>, in |-> "", n |-> 0, h |-> 0, hi |-> -1], SubSeq(s, i, e - 1)))
             IN IF e = 0 THEN No ELSE IF r.in # "" THEN No ELSE Yes(Flush(r).out, e + 1)

RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF C(s, i) \in 48..57 THEN DigitsEnd(s, i + 1) ELSE i
(* -?(0|[1-9][0-9]* )(\.[0-9]+)?([eE][+-]?[0-9]+)? *)
Num(s, i) ==
  LET i1 == IF C(s, i) = 45 THEN i + 1 ELSE i
      i2 == IF C(s, i1) = 48 THEN i1 + 1 ELSE DigitsEnd(s, i1)
      i3 == IF C(s, i2) = 46 THEN DigitsEnd(s, i2 + 1) ELSE i2
      badFrac == C(s, i2) = 46 /\ i3 = i2 + 1
      hasE == C(s, i3) \in {101, 69}
      i4 == IF hasE /\ C(s, i3 + 1) \in {43, 45} THEN i3 + 2 ELSE i3 + 1
      i5 == IF hasE THEN DigitsEnd(s, i4) ELSE i3
      badExp == hasE /\ i5 = i4
      frac == IF C(s, i2) = 46 THEN SubSeq(s, i2 + 1, i3 - 1) ELSE <<>>
      xt == IF hasE THEN StripZeros(SubSeq(s, i4, i5 - 1)) ELSE <<48>>
      e == NatOf(SubSeq(xt, 1, IF Len(xt) > 5 THEN 5 ELSE Len(xt)), 0) * (IF hasE /\ C(s, i3 + 1) = 45 THEN -1 ELSE 1)
      n == Number(IF C(s, i) = 45 THEN -1 ELSE 1, SubSeq(s, i1, i2 - 1) \o frac, e - Len(frac), "f", "F")
      size == IF Tag(n) = "F" THEN Len(n[3]) + n[4] ELSE 0
  IN IF i2 = i1 \/ badFrac \/ badExp THEN No
     ELSE IF size > 309 THEN No                    \* not a double (the scenarios do not come closer to the bound)
     ELSE Yes(IF size < -330 THEN Flt(0) ELSE n, i5)


RECURSIVE Value(_, _)
RECURSIVE Members(_, _, _)
RECURSIVE Items(_, _, _)
Value(s, i0) ==
  LET i == SkipWs(s, i0)
      c == C(s, i)
  IN CASE c = 123 -> LET j == SkipWs(s, i + 1) IN IF C(s, j) = 125 THEN Yes(Obj([n \in {} |-> 0]), j + 1) ELSE Members(s, j, <<>>)
       [] c = 91  -> LET j == SkipWs(s, i + 1) IN IF C(s, j) = 93 THEN Yes(Arr(<<>>), j + 1) ELSE Items(s, j, <<>>)
       [] c = 34  -> LET r == Str(s, i + 1) IN IF r.ok THEN Yes(StrV(r.v), r.n) ELSE No
       [] c = 116 -> IF At(s, <<116, 114, 117, 101>>, i) THEN Yes(Bool(TRUE), i + 4) ELSE No
       [] c = 102 -> IF At(s, <<102, 97, 108, 115, 101>>, i) THEN Yes(Bool(FALSE), i + 5) ELSE No
       [] c = 110 -> IF At(s, <<110, 117, 108, 108>>, i) THEN Yes(Nil, i + 4) ELSE No
       [] OTHER   -> Num(s, i)
(* acc: the members so far, as pairs of codes and value. *)
Members(s, i, acc) ==
  LET k == IF C(s, i) = 34 THEN Str(s, i + 1) ELSE No
      colon == IF k.ok THEN SkipWs(s, k.n) ELSE 0
      v == IF k.ok /\ C(s, colon) = 58 THEN Value(s, colon + 1) ELSE No
      after == IF v.ok THEN SkipWs(s, v.n) ELSE 0
  IN IF ~v.ok THEN No
     ELSE IF C(s, after) = 125 THEN Yes(<<"O", Append(acc, <<k.v, v.v>>)>>, after + 1)
     ELSE IF C(s, after) = 44 THEN Members(s, SkipWs(s, after + 1), Append(acc, <<k.v, v.v>>))
     ELSE No
Items(s, i, acc) ==
  LET v == Value(s, i)
      after == IF v.ok THEN SkipWs(s, v.n) ELSE 0
  IN IF ~v.ok THEN No
     ELSE IF C(s, after) = 93 THEN Yes(Arr(Append(acc, v.v)), after + 1)
     ELSE IF C(s, after) = 44 THEN Items(s, after + 1, Append(acc, v.v))
     ELSE No

(* Names are strings in RodbQuery and codes here: T maps codes to one-character strings. *)
RECURSIVE Finish(_, _)
Finish(v, T) ==
  CASE v[1] = "a" -> Arr(TLCEval([i \in 1..Len(v[2]) |-> Finish(v[2][i], T)]))
    [] v[1] = "O" -> LET ms == v[2]
                         name == TLCEval([i \in 1..Len(ms) |-> Utf(T, ms[i][1])])
                         last(n) == CHOOSE i \in 1..Len(ms) : name[i] = n /\ \A j \in (i + 1)..Len(ms) : name[j] # n
                     IN Obj(TLCEval([n \in {name[i] : i \in 1..Len(ms)} |-> Finish(ms[last(n)][2], T)]))
    [] OTHER -> v

(* The objects of a file: [recs, bad]. *)
RECURSIVE File(_, _, _)
File(s, i0, acc) ==
  LET i == SkipWs(s, i0) IN
  IF i > Len(s) THEN [recs |-> acc, bad |-> FALSE]
  ELSE IF C(s, i) # 123 THEN [recs |-> acc, bad |-> TRUE]
  ELSE LET v == Value(s, i) IN IF v.ok THEN File(s, v.n, Append(acc, v.v)) ELSE [recs |-> acc, bad |-> TRUE]
JsonOf(s, T) == LET f == TLCEval(File(s, 1, <<>>)) IN [recs |-> TLCEval([i \in 1..Len(f.recs) |-> Finish(f.recs[i], T)]), bad |-> f.bad]
=============================================================================
