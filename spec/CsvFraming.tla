----------------------------- MODULE CsvFraming -----------------------------
(* How the text of a CSV file is cut into records of cells.  A text is a sequence of codes, d the delimiter.
   Scan is a finite automaton run over the text, one character at a time; its state is a record
     mode   "rec" at the start of a record, "fld" at the start of a further cell, "unq" inside an unquoted cell,
            "quo" inside a quoted cell, "aq" after a quote inside a quoted cell, "bad" after something malformed
     cell, row, rows  what has been read so far;  pos, start  the position and where the current record started;
     starts the starts of the rows.                                                                              *)
EXTENDS Integers, Sequences, SequencesExt, TLC
LF == 10
CR == 13
Quote == 34

(* Line ends: CR LF is LF everywhere; one CR at the very end of the file is dropped. *)
Norm(s) == LET keep(i) == ~(s[i] = CR /\ (i = Len(s) \/ s[i + 1] = LF))
               idx == SelectSeq([i \in 1..Len(s) |-> i], keep)
           IN [i \in 1..Len(idx) |-> s[idx[i]]]

Start0 == [mode |-> "rec", cell |-> <<>>, row |-> <<>>, rows |-> <<>>, pos |-> 0, start |-> 0, starts |-> <<>>]
EndCell(a, m) == [a EXCEPT !.row = Append(@, a.cell), !.cell = <<>>, !.mode = m]
EndRow(a) == LET b == EndCell(a, "rec") IN
             [b EXCEPT !.rows = Append(@, b.row), !.row = <<>>, !.starts = Append(@, b.start), !.start = b.pos + 1]
Step1(a, c, d) ==
  CASE a.mode = "bad" -> a
    [] a.mode = "rec" /\ c = LF -> a
    [] a.mode \in {"rec", "fld"} /\ c = Quote -> [a EXCEPT !.mode = "quo"]
    [] a.mode \in {"rec", "fld", "unq"} /\ c = d -> EndCell(a, "fld")
    [] a.mode \in {"fld", "unq", "aq"} /\ c = LF -> EndRow(a)
    [] a.mode = "unq" /\ c = Quote -> [a EXCEPT !.mode = "bad"]
    [] a.mode \in {"rec", "fld", "unq"} -> [a EXCEPT !.cell = Append(@, c), !.mode = "unq"]
    [] a.mode = "quo" /\ c = Quote -> [a EXCEPT !.mode = "aq"]
    [] a.mode = "quo" -> [a EXCEPT !.cell = Append(@, c)]
    [] a.mode = "aq" /\ c = Quote -> [a EXCEPT !.cell = Append(@, c), !.mode = "quo"]
    [] a.mode = "aq" /\ c = d -> EndCell(a, "fld")
    [] OTHER -> [a EXCEPT !.mode = "bad"]
Step(a, c, d) == LET b == Step1(a, c, d) IN [b EXCEPT !.pos = @ + 1]
AtEnd(a) == IF a.mode \in {"fld", "unq", "aq"} THEN EndRow(a)
            ELSE IF a.mode = "quo" THEN [a EXCEPT !.mode = "bad"] ELSE a
ScanFrom(s, i, d) == AtEnd(FoldLeft(LAMBDA a, c : Step(a, c, d), Start0, SubSeq(s, i, Len(s))))

(* The records of a text: [rows, bad]; when bad, the rows are those before the malformed one. *)
CsvOf(text, d) == LET a == ScanFrom(Norm(text), 1, d) IN [rows |-> a.rows, starts |-> a.starts, bad |-> a.mode = "bad"]

(* The canonical way to write records. *)
Needs(c, d) == \E i \in 1..Len(c) : c[i] \in {d, Quote, LF, CR}
WriteCell(c, d, alone) ==
  IF Needs(c, d) \/ (alone /\ c = <<>>)
  THEN <<Quote>> \o FlattenSeq([i \in 1..Len(c) |-> IF c[i] = Quote THEN <<Quote, Quote>> ELSE <<c[i]>>]) \o <<Quote>> ELSE c
RECURSIVE WriteRow(_, _, _)
WriteRow(r, d, alone) == IF Len(r) = 1 THEN WriteCell(r[1], d, alone)
                         ELSE WriteCell(r[1], d, FALSE) \o <<d>> \o WriteRow(Tail(r), d, FALSE)
WriteRows(rs, d) == FlattenSeq([i \in 1..Len(rs) |-> WriteRow(rs[i], d, Len(rs[i]) = 1) \o <<LF>>])
=============================================================================
