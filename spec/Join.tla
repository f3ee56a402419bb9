-------------------------------- MODULE Join --------------------------------
(* The join of sorted position lists: one cursor per list; each call first moves the cursors of all the lists but the
   first, then walks the first list, moving each other cursor up to its current position, until a position is in all.
   Property: the successive calls return exactly the common positions, in order, and then nothing for ever.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxPos, Lists, ExtraCalls,
          StopAtEqual,  \* a cursor is moved while it is lower than the position (broken: FALSE, lower or equal)
          NeedAll       \* every list must hold the position (broken: FALSE, the last one decides)
VARIABLES lists, used, vals, pc, j, first, found, out, ended
vars == <<lists, used, vals, pc, j, first, found, out, ended>>

Sorted(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A a, b \in DOMAIN q : a < b => q[a] < q[b]
AllLists == {Sorted(S) : S \in SUBSET (1..MaxPos)}

Init == /\ lists \in [1..Lists -> AllLists]
        /\ used = [i \in 1..Lists |-> 0] /\ vals = [i \in 1..Lists |-> 0]
        /\ pc = "idle" /\ j = 0 /\ first = 0 /\ found = FALSE /\ out = <<>> /\ ended = 0
Empty(i) == used[i] >= Len(lists[i])
Call == pc = "idle" /\ ended < ExtraCalls /\ pc' = "fill" /\ j' = 2 /\ UNCHANGED <<lists, used, vals, first, found, out, ended>>
Return(v) == /\ pc' = "idle"
             /\ IF v = 0 THEN ended' = ended + 1 /\ UNCHANGED out ELSE out' = Append(out, IF ended > 0 THEN -1 ELSE v) /\ UNCHANGED ended
Fill == /\ pc = "fill"
        /\ IF j > Lists THEN pc' = "first" /\ UNCHANGED <<used, vals, j, out, ended>>
           ELSE IF Empty(j) THEN Return(0) /\ UNCHANGED <<used, vals, j>>
           ELSE /\ used' = [used EXCEPT ![j] = @ + 1] /\ vals' = [vals EXCEPT ![j] = lists[j][used[j] + 1]]
                /\ j' = j + 1 /\ UNCHANGED <<pc, out, ended>>
        /\ UNCHANGED <<lists, first, found>>
First == /\ pc = "first"
         /\ IF Empty(1) THEN Return(0) /\ UNCHANGED <<used, j, first, found>>
            ELSE /\ used' = [used EXCEPT ![1] = @ + 1] /\ first' = lists[1][used[1] + 1]
                 /\ j' = 2 /\ pc' = "walk" /\ found' = TRUE /\ UNCHANGED <<out, ended>>
         /\ UNCHANGED <<lists, vals>>
Behind(i) == IF StopAtEqual THEN vals[i] < first ELSE vals[i] <= first
Walk == /\ pc = "walk"
        /\ IF j > Lists THEN (IF found THEN Return(first) ELSE pc' = "first" /\ UNCHANGED <<out, ended>>) /\ UNCHANGED <<used, vals, j, found>>
           ELSE IF Behind(j)
           THEN IF Empty(j) THEN Return(0) /\ UNCHANGED <<used, vals, j, found>>
                ELSE used' = [used EXCEPT ![j] = @ + 1] /\ vals' = [vals EXCEPT ![j] = lists[j][used[j] + 1]] /\ UNCHANGED <<pc, j, found, out, ended>>
           ELSE IF vals[j] # first
                THEN IF NeedAll THEN pc' = "first" /\ found' = FALSE /\ UNCHANGED <<used, vals, j, out, ended>>
                     ELSE j' = j + 1 /\ found' = FALSE /\ UNCHANGED <<pc, used, vals, out, ended>>
                ELSE j' = j + 1 /\ found' = TRUE /\ UNCHANGED <<pc, used, vals, out, ended>>
        /\ UNCHANGED <<lists, first>>
Next == Call \/ Fill \/ First \/ Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Common == {p \in 1..MaxPos : \A i \in 1..Lists : \E k \in 1..Len(lists[i]) : lists[i][k] = p}
Prefix == /\ \A k \in 1..Len(out) : out[k] \in Common
          /\ \A k \in 1..(Len(out) - 1) : out[k] < out[k + 1]
Complete == ended > 0 => {out[k] : k \in 1..Len(out)} = Common
Terminates == <>(ended = ExtraCalls)
=============================================================================
