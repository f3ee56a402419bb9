---------------------------- MODULE SqliteBuild ----------------------------
(* Building an index in a database without journal, dying at any point, and starting again.
   Each statement changes some pages, written one by one in any order; a death leaves any part of them changed.
   Pages: the schema (which tables exist), the row of metadata, the table of positions, its index.
   A start looks for the metadata table: none, it builds; else it uses the index if its metadata say so, or refuses.
   Property: a start which uses the index finds all the rows, once each, in the table and in its index, and nothing
   half-written in them.                                                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rows, MaxDeaths,
          MarkLast,       \* the mark is written after the rows (broken: FALSE)
          RefuseUnmarked, \* an index without the mark is refused (broken: FALSE, it is used)
          Resume          \* broken: an index without the mark is built again, over what is there
VARIABLES disk, todo, pc, row, deaths, used
vars == <<disk, todo, pc, row, deaths, used>>
(* disk: page -> content.  schema: set of tables; meta: "none", "no" or "yes"; table, index: sequence of rows;
   a page listed in the schema but never written reads as damaged. *)
Unwritten == <<0>>
Empty == [schema |-> {}, meta |-> "unwritten", table |-> Unwritten, index |-> Unwritten]
Init == disk = Empty /\ todo = <<>> /\ pc = "start" /\ row = 1 /\ deaths = 0 /\ used = FALSE
Wr(p, v) == [page |-> p, v |-> v]
(* a statement: the page contents it writes, in one order or the other *)
Do(ws, next) == todo' = ws /\ pc' = next
Stmt(ws, next) == Do(ws, next) \/ (Len(ws) = 2 /\ Do(<<ws[2], ws[1]>>, next))
WritePage == /\ todo # <<>> /\ disk' = [disk EXCEPT ![Head(todo).page] = Head(todo).v] /\ todo' = Tail(todo) /\ UNCHANGED <<pc, row, deaths, used>>
At(p) == todo = <<>> /\ pc = p
Same == UNCHANGED <<disk, deaths, used>>
Start == /\ At("start")
         /\ IF "meta" \notin disk.schema THEN todo' = <<>> /\ pc' = "createMeta" /\ used' = FALSE
            ELSE IF disk.meta = "yes" \/ (disk.meta = "no" /\ ~RefuseUnmarked) THEN todo' = <<>> /\ pc' = "serving" /\ used' = TRUE
            ELSE IF disk.meta \in {"no", "none"} /\ Resume THEN todo' = <<>> /\ pc' = (IF "table" \in disk.schema THEN "insert" ELSE "createTable") /\ used' = FALSE
            ELSE todo' = <<>> /\ pc' = "refused" /\ used' = FALSE
         /\ row' = 1 /\ UNCHANGED <<disk, deaths>>
CreateMeta == At("createMeta") /\ Stmt(<<Wr("schema", disk.schema \cup {"meta"}), Wr("meta", "none")>>, "insertMeta") /\ UNCHANGED row /\ Same
InsertMeta == At("insertMeta") /\ Stmt(<<Wr("meta", IF MarkLast THEN "no" ELSE "yes")>>, IF "table" \in disk.schema THEN "refused" ELSE "createTable") /\ UNCHANGED row /\ Same
CreateTable == At("createTable") /\ Stmt(<<Wr("schema", disk.schema \cup {"table"}), Wr("table", <<>>)>>, "createIndex") /\ UNCHANGED row /\ Same
CreateIndex == At("createIndex") /\ Stmt(<<Wr("schema", disk.schema \cup {"index"}), Wr("index", <<>>)>>, "insert") /\ UNCHANGED row /\ Same
Insert == /\ At("insert")
          /\ IF row > Rows THEN Do(<<>>, "deleteMeta") /\ UNCHANGED row
             ELSE IF disk.table = Unwritten \/ disk.index = Unwritten THEN Do(<<>>, "refused") /\ UNCHANGED row
             ELSE Stmt(<<Wr("table", Append(disk.table, row)), Wr("index", Append(disk.index, row))>>, "insert") /\ row' = row + 1
          /\ Same
DeleteMeta == At("deleteMeta") /\ Stmt(<<Wr("meta", "none")>>, "mark") /\ UNCHANGED row /\ Same
MarkIt == At("mark") /\ Stmt(<<Wr("meta", "yes")>>, "start") /\ UNCHANGED row /\ Same
Die == /\ deaths < MaxDeaths /\ pc \notin {"start"} /\ deaths' = deaths + 1 /\ todo' = <<>> /\ pc' = "start" /\ used' = FALSE /\ UNCHANGED <<disk, row>>
Next == WritePage \/ Start \/ CreateMeta \/ InsertMeta \/ CreateTable \/ CreateIndex \/ Insert \/ DeleteMeta \/ MarkIt \/ Die
Spec == Init /\ [][Next]_vars
AllRows == [i \in 1..Rows |-> i]
UsedIsComplete == used => disk.table = AllRows /\ disk.index = AllRows
=============================================================================
