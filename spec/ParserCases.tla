----------------------------- MODULE ParserCases -----------------------------
(* The parsers of RodbValues against automata reading the same text character by character (what a user understands of a
   number: sign, digits, separator, digits, power), and the laws of the split parser and of the route patterns.       *)
EXTENDS RodbValues
CONSTANTS Alphabet, MaxLen, Ignore, Sep,
          SignOnce,        \* a sign is accepted only before the first digit (broken: FALSE, anywhere)
          IgnoreAnywhere,  \* ignored characters are skipped wherever they are (broken: FALSE, only before the number)
          NeedsDigit       \* at least one digit is needed (broken: FALSE)
VARIABLES txt, int, flt, pieces
vars == <<txt, int, flt, pieces>>
PI == [type |-> "integer", ignore |-> SetToSeq(Ignore)]
PF == [type |-> "float", ignore |-> SetToSeq(Ignore), sep |-> <<Sep>>]

Start == [st |-> "start", sg |-> 1, ds |-> <<>>, scale |-> 0, xs |-> 1, xd |-> <<>>]
Init == txt = <<>> /\ int = Start /\ flt = Start /\ pieces = <<<<>>>>
To(a, st) == [a EXCEPT !.st = st]
Skipped(a, c) == c \in Ignore /\ (IgnoreAnywhere \/ a.st = "start")
Sign(a, c) == [a EXCEPT !.st = "sign", !.sg = IF c = 45 THEN -1 ELSE 1]
IntStep(a, c) ==
  CASE a.st = "bad" -> a
    [] Skipped(a, c) -> a
    [] c \in {43, 45} /\ (a.st = "start" \/ (~SignOnce /\ a.st = "digits")) -> IF a.st = "start" THEN Sign(a, c) ELSE a
    [] IsDigit(c) -> [To(a, "digits") EXCEPT !.ds = Append(@, c)]
    [] OTHER -> To(a, "bad")
FltStep(a, c) ==
  CASE a.st = "bad" -> a
    [] Skipped(a, c) -> a
    [] c \in {43, 45} /\ a.st = "start" -> Sign(a, c)
    [] c \in {43, 45} /\ a.st = "exp" -> [To(a, "expsign") EXCEPT !.xs = IF c = 45 THEN -1 ELSE 1]
    [] IsDigit(c) /\ a.st \in {"start", "sign", "digits"} -> [To(a, "digits") EXCEPT !.ds = Append(@, c)]
    [] IsDigit(c) /\ a.st \in {"frac", "point"} -> [To(a, "frac") EXCEPT !.ds = Append(@, c), !.scale = @ - 1]
    [] IsDigit(c) /\ a.st \in {"exp", "expsign", "power"} -> [To(a, "power") EXCEPT !.xd = Append(@, c)]
    [] c \in {Sep, 46} /\ a.st = "digits" -> To(a, "frac")      \* 1. is one
    [] c \in {Sep, 46} /\ a.st \in {"start", "sign"} -> To(a, "point")   \* . is nothing yet
    [] c \in {101, 69} /\ a.st \in {"digits", "frac"} -> To(a, "exp")
    [] OTHER -> To(a, "bad")
SplitStep(ps, c) == IF c = Sep THEN Append(ps, <<>>) ELSE [ps EXCEPT ![Len(ps)] = Append(@, c)]
Read(c) == /\ Len(txt) < MaxLen
           /\ txt' = Append(txt, c) /\ int' = IntStep(int, c) /\ flt' = FltStep(flt, c) /\ pieces' = SplitStep(pieces, c)
Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

IntDone == int.st = "digits" \/ (~NeedsDigit /\ int.st \in {"start", "sign"})
FltDone == flt.st \in {"digits", "frac", "power"}
IntegerIsAutomaton == ParseInteger(PI, txt) = IF IntDone THEN Ok(Number(int.sg, IF int.ds = <<>> THEN <<48>> ELSE int.ds, 0, "i", "I")) ELSE Err
Tame == Len(flt.xd) <= 2
FloatIsAutomaton == Tame => ParseFloat(PF, txt) = IF FltDone THEN Ok(Number(flt.sg, flt.ds, flt.scale + flt.xs * NatOf(flt.xd, 0), "f", "F")) ELSE Err
SplitIsAutomaton == SplitOn(txt, <<Sep>>, <<>>) = pieces /\ SplitRe(txt, <<[any |-> <<Sep>>, min |-> 1, many |-> FALSE]>>, <<>>) = pieces
(* A route takes only texts which look like the parser's: with a digit in them, they are parsed. *)
HasDigit == \E i \in 1..Len(txt) : IsDigit(txt[i])
PlainSettings == 45 \notin Ignore /\ Sep \notin Ignore /\ \A d \in 48..57 : d \notin Ignore
RouteTakesParsable == (HasDigit /\ PlainSettings) => /\ PatternAccepts(PI, txt) => IsOk(ParseInteger(PI, txt))
                                                     /\ PatternAccepts(PF, txt) => IsOk(ParseFloat(PF, txt))
=============================================================================
